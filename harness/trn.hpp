// Reference transcoder with flags, limits and notifications, and a judge of the library's transcoding routes.
#ifndef TRN_HPP
#define TRN_HPP
#include "tc.hpp"
#include <cstring>
namespace trn {
using namespace tc;
using Why = strf::transcode_stop_reason;
using Fl = strf::transcode_flags;
inline bool has_flag(Fl f, Fl b) { return (f & b) != Fl::none; }
inline const char* why_name(Why w) { return w == Why::completed ? "completed" : w == Why::insufficient_output_space ? "insufficient_output_space" : w == Why::invalid_sequence ? "invalid_sequence" : w == Why::unsupported_codepoint ? "unsupported_codepoint" : "(no such reason)"; }
inline std::string fl_name(Fl f) { std::string s; if (has_flag(f, Fl::lax_surrogate_policy)) s += "lax "; if (has_flag(f, Fl::stop_on_invalid_sequence)) s += "stop-inv "; if (has_flag(f, Fl::stop_on_unsupported_codepoint)) s += "stop-uns "; return s; }
inline Fl gen_flags(Rng& g) { Fl f = Fl::none; if (g.chance(1, 3)) f = f | Fl::lax_surrogate_policy; if (g.chance(1, 4)) f = f | Fl::stop_on_invalid_sequence; if (g.chance(1, 4)) f = f | Fl::stop_on_unsupported_codepoint; return f; }
template <typename D> struct Exp { Why why = Why::completed; std::size_t at = 0; std::basic_string<D> out; std::vector<Seg> inv, uns; bool extra_inv = false, extra_uns = false; Seg extra{}; };
// what converting s (with room for space units) must do
template <typename D, typename S> Exp<D> expect(const Ch& from, const Ch& to, const S* s, std::size_t n, Fl f, std::ptrdiff_t space, bool quirk = false) {
    Exp<D> r; bool lax = has_flag(f, Fl::lax_surrogate_policy);
    for (auto& x : decode(from, s, n, lax)) {
        r.at = x.at; bool ok = x.ok;
        if (quirk && ok && !lax && x.cp >= 0xE000 && x.cp < 0x10000 && !has(to, x.cp)) ok = false;
        bool uns = ok && !has(to, x.cp);
        if (!ok && has_flag(f, Fl::stop_on_invalid_sequence)) { r.inv.push_back(x); r.why = Why::invalid_sequence; return r; }
        if (uns && has_flag(f, Fl::stop_on_unsupported_codepoint)) { r.uns.push_back(x); r.why = Why::unsupported_codepoint; return r; }
        auto e = encode1<D>(to, ok ? x.cp : 0xFFFD);
        if ((std::ptrdiff_t)(r.out.size() + e.size()) > space) { r.why = Why::insufficient_output_space; r.extra = x; r.extra_inv = !ok; r.extra_uns = uns; return r; }
        if (!ok) r.inv.push_back(x); if (uns) r.uns.push_back(x);
        r.out += e;
    }
    r.at = n; return r;
}
// a way of transcoding
template <typename S, typename D> struct Res { const S* src; D* dst; Why why; };
template <typename S> struct SizeRes { std::ptrdiff_t n; const S* src; Why why; };
template <typename S, typename D> struct Route {
    std::string name; bool unsafe; bool two_stage;
    std::function<Res<S, D>(const S*, const S*, D*, D*, strf::transcoding_error_notifier*, Fl)> tr;
    std::function<SizeRes<S>(const S*, const S*, std::ptrdiff_t, Fl)> size;
    std::function<SizeRes<S>(const S*, const S*, strf::destination<D>&, strf::transcoding_error_notifier*, Fl)> to_dst;
};
// the source position of a decode_encode result
template <typename S, typename Cs, typename R> const S* real_src(const Cs& cs, const R& r, const S* end, Fl f) {
    if (r.u32dist == 0) return r.stale_src_ptr;
    return cs.to_u32().transcode_size(r.stale_src_ptr, end, r.u32dist, f).src_ptr;
}
template <typename S, typename D, typename SCs, typename DCs> void add_pair_routes(std::vector<Route<S, D>>& v, const std::string& n, SCs s, DCs d) {
    const bool direct = strf::find_transcoder(s, d).transcode_func() != nullptr;
    v.push_back({ n + " transcode", false, !direct,
        [s, d](const S* b, const S* e, D* o, D* oe, strf::transcoding_error_notifier* nt, Fl f) -> Res<S, D> { auto r = strf::transcode(s, d, b, e, o, oe, nt, f); return { real_src(s, r, e, f), r.dst_ptr, r.stop_reason }; },
        [s, d](const S* b, const S* e, std::ptrdiff_t l, Fl f) -> SizeRes<S> { auto r = strf::transcode_size(s, d, b, e, l, f); return { r.ssize, real_src(s, r, e, f), r.stop_reason }; },
        [s, d](const S* b, const S* e, strf::destination<D>& o, strf::transcoding_error_notifier* nt, Fl f) -> SizeRes<S> { auto r = strf::transcode(s, d, b, e, o, nt, f); return { r.ssize, real_src(s, r, e, f), r.stop_reason }; } });
    v.push_back({ n + " unsafe_transcode", true, !direct,
        [s, d](const S* b, const S* e, D* o, D* oe, strf::transcoding_error_notifier* nt, Fl f) -> Res<S, D> { auto r = strf::unsafe_transcode(s, d, b, e, o, oe, nt, f); return { real_src(s, r, e, f), r.dst_ptr, r.stop_reason }; },
        [s, d](const S* b, const S* e, std::ptrdiff_t l, Fl f) -> SizeRes<S> { auto r = strf::unsafe_transcode_size(s, d, b, e, l, f); return { r.ssize, real_src(s, r, e, f), r.stop_reason }; },
        [s, d](const S* b, const S* e, strf::destination<D>& o, strf::transcoding_error_notifier* nt, Fl f) -> SizeRes<S> { auto r = strf::unsafe_transcode(s, d, b, e, o, nt, f); return { r.ssize, real_src(s, r, e, f), r.stop_reason }; } });
    v.push_back({ n + " decode_encode", false, true,
        [s, d](const S* b, const S* e, D* o, D* oe, strf::transcoding_error_notifier* nt, Fl f) -> Res<S, D> { auto r = strf::decode_encode(s, d, b, e, o, oe, nt, f); return { real_src(s, r, e, f), r.dst_ptr, r.stop_reason }; },
        [s, d](const S* b, const S* e, std::ptrdiff_t l, Fl f) -> SizeRes<S> { auto r = strf::decode_encode_size(s, d, b, e, l, f); return { r.ssize, real_src(s, r, e, f), r.stop_reason }; },
        [s, d](const S* b, const S* e, strf::destination<D>& o, strf::transcoding_error_notifier* nt, Fl f) -> SizeRes<S> { auto r = strf::decode_encode(s, d, b, e, o, nt, f); return { r.ssize, real_src(s, r, e, f), r.stop_reason }; } });
    v.push_back({ n + " unsafe_decode_encode", true, true,
        [s, d](const S* b, const S* e, D* o, D* oe, strf::transcoding_error_notifier* nt, Fl f) -> Res<S, D> { auto r = strf::unsafe_decode_encode(s, d, b, e, o, oe, nt, f); return { real_src(s, r, e, f), r.dst_ptr, r.stop_reason }; },
        [s, d](const S* b, const S* e, std::ptrdiff_t l, Fl f) -> SizeRes<S> { auto r = strf::unsafe_decode_encode_size(s, d, b, e, l, f); return { r.ssize, real_src(s, r, e, f), r.stop_reason }; },
        nullptr });
}
template <typename S, typename D, typename T> void add_transcoder_routes(std::vector<Route<S, D>>& v, const std::string& n, T t) {
    if (t.transcode_func() == nullptr) return;
    v.push_back({ n + ".transcode", false, false,
        [t](const S* b, const S* e, D* o, D* oe, strf::transcoding_error_notifier* nt, Fl f) -> Res<S, D> { auto r = t.transcode(b, e, o, oe, nt, f); return { r.src_ptr, r.dst_ptr, r.stop_reason }; },
        [t](const S* b, const S* e, std::ptrdiff_t l, Fl f) -> SizeRes<S> { auto r = t.transcode_size(b, e, l, f); return { r.ssize, r.src_ptr, r.stop_reason }; },
        [t](const S* b, const S* e, strf::destination<D>& o, strf::transcoding_error_notifier* nt, Fl f) -> SizeRes<S> { auto r = strf::transcode(t.transcode_func(), b, e, o, nt, f); return { r.ssize, r.src_ptr, r.stop_reason }; } });
    if (t.unsafe_transcode_func() == nullptr || t.transcode_size_func() == nullptr || t.unsafe_transcode_size_func() == nullptr) vh::violation("half-null-transcoder", n);
    v.push_back({ n + ".unsafe_transcode", true, false,
        [t](const S* b, const S* e, D* o, D* oe, strf::transcoding_error_notifier* nt, Fl f) -> Res<S, D> { auto r = t.unsafe_transcode(b, e, o, oe, nt, f); return { r.src_ptr, r.dst_ptr, r.stop_reason }; },
        [t](const S* b, const S* e, std::ptrdiff_t l, Fl f) -> SizeRes<S> { auto r = t.unsafe_transcode_size(b, e, l, f); return { r.ssize, r.src_ptr, r.stop_reason }; },
        [t](const S* b, const S* e, strf::destination<D>& o, strf::transcoding_error_notifier* nt, Fl f) -> SizeRes<S> { auto r = strf::transcode(t.unsafe_transcode_func(), b, e, o, nt, f); return { r.ssize, r.src_ptr, r.stop_reason }; } });
}
// all the routes from one charset to another (each given dynamic)
template <typename S, typename D> std::vector<Route<S, D>> routes(const std::string& pre, strf::dynamic_charset<S> s, strf::dynamic_charset<D> d) {
    std::vector<Route<S, D>> v;
    add_pair_routes<S, D>(v, pre, s, d);
    add_transcoder_routes<S, D>(v, pre + " find_transcoder()", strf::find_transcoder(s, d));
    if constexpr (std::is_same<S, D>::value) { if (s.id() == d.id()) add_transcoder_routes<S, D>(v, pre + " sanitizer()", s.sanitizer()); }
    if constexpr (std::is_same<D, char32_t>::value) add_transcoder_routes<S, D>(v, pre + " to_u32()", s.to_u32());
    if constexpr (std::is_same<S, char32_t>::value) add_transcoder_routes<S, D>(v, pre + " from_u32()", d.from_u32());
    return v;
}
// the same with static charsets
template <typename S, typename D, typename SCs, typename DCs> std::vector<Route<S, D>> static_routes(const std::string& pre, SCs s, DCs d) {
    std::vector<Route<S, D>> v;
    add_pair_routes<S, D>(v, pre + " static", s, d);
    add_transcoder_routes<S, D>(v, pre + " static find_transcoder()", strf::find_transcoder(s, d));
    if constexpr (std::is_same<SCs, DCs>::value) add_transcoder_routes<S, D>(v, pre + " static sanitizer()", s.sanitizer());
    if constexpr (std::is_same<D, char32_t>::value) add_transcoder_routes<S, D>(v, pre + " static to_u32()", s.to_u32());
    if constexpr (std::is_same<S, char32_t>::value) add_transcoder_routes<S, D>(v, pre + " static from_u32()", d.from_u32());
    add_pair_routes<S, D>(v, pre + " static-to-dynamic", s, d.to_dynamic());
    return v;
}
template <typename C> struct Block { std::unique_ptr<C[]> p; std::size_t pad, n; Block(const C* s, std::size_t n_, std::size_t pad_) : p(new C[n_ + pad_]), pad(pad_), n(n_) { if (n) std::memcpy((void*)(p.get() + pad), (const void*)s, n * sizeof(C)); } const C* begin() const { return p.get() + pad; } const C* end() const { return p.get() + pad + n; } };
template <typename S, typename D> std::string describe(const Route<S, D>& r, const Ch& from, const Ch& to, const S* b, std::size_t n, Fl f, std::ptrdiff_t space) {
    return r.name + vh::fmt(" %s(%zu)->%s(%zu) ", from.name, sizeof(S), to.name, sizeof(D)) + fl_name(f) + vh::fmt("space %td src ", space) + vh::show(std::basic_string<S>(b, n), 300);
}
template <typename D> struct Outcome { Why why; std::size_t at; std::basic_string<D> out; };
// Calls the route once with exactly space units of room; judges result, output, what it left untouched, and notifications.
// Returns the outcome the library had (agreeing with the reference, unless a violation was reported).
template <typename S, typename D> Outcome<D> judge(const Route<S, D>& r, const Ch& from, const Ch& to, const S* b, std::size_t n, Fl f, std::ptrdiff_t space, bool notifier = true) {
    std::unique_ptr<D[]> o(new D[(std::size_t)space]); const D mark = (D)0x5A; for (std::ptrdiff_t i = 0; i < space; ++i) o[(std::size_t)i] = mark;
    Rec rec; auto res = r.tr(b, b + n, o.get(), o.get() + space, notifier ? &rec : nullptr, f);
    auto what = [&] { return describe(r, from, to, b, n, f, space); };
    Outcome<D> oc{ res.why, 0, {} };
    if (res.src < b || res.src > b + n || res.dst < o.get() || res.dst > o.get() + space) { vh::violation("pointers", what() + vh::fmt(" src_ptr %+td dst_ptr %+td", res.src - b, res.dst - o.get())); return oc; }
    oc.at = (std::size_t)(res.src - b); oc.out.assign(o.get(), res.dst);
    bool quirk = false; auto e = expect<D>(from, to, b, n, f, space);
    auto agrees = [&](const Exp<D>& x) { return x.why == oc.why && x.at == oc.at && x.out == oc.out; };
    // notified: what was converted, in order, and at most once the piece there was no space for
    auto notified = [&](const Exp<D>& x, std::string* diff) {
        std::vector<Seg> inv = r.unsafe ? std::vector<Seg>() : x.inv;
        auto same_i = [&](const Rec::Inv& q, const Seg& y) { return q.unit == (int)sizeof(S) && q.name == from.name && q.n == (std::ptrdiff_t)y.n && q.p == b + y.at; };
        auto same_u = [&](const Rec::Uns& q, const Seg& y) { return q.name == to.name && q.cp == (unsigned)y.cp; };
        bool ok = true; std::size_t ni = rec.inv.size(), nu = rec.uns.size();
        if (x.extra_inv && !r.unsafe && ni == inv.size() + 1 && same_i(rec.inv.back(), x.extra)) --ni;
        if (x.extra_uns && nu == x.uns.size() + 1 && same_u(rec.uns.back(), x.extra)) --nu;
        if (ni != inv.size() || nu != x.uns.size()) ok = false;
        for (std::size_t i = 0; ok && i < ni; ++i) ok = same_i(rec.inv[i], inv[i]);
        for (std::size_t i = 0; ok && i < nu; ++i) ok = same_u(rec.uns[i], x.uns[i]);
        if (!ok && diff) { for (auto& q : rec.inv) *diff += vh::fmt(" [%td,+%td unit %d %s]", (const S*)q.p - b, q.n, q.unit, q.name.c_str()); for (auto& q : rec.uns) *diff += vh::fmt(" %s:U+%X", q.name.c_str(), q.cp);
            *diff += " expected"; for (auto& y : inv) *diff += vh::fmt(" [%zu,+%zu]", y.at, y.n); for (auto& y : x.uns) *diff += vh::fmt(" U+%X", (unsigned)y.cp); }
        return ok;
    };
    bool good = agrees(e) && (!notifier || notified(e, nullptr));
    if (!good && from.kind == Kind::u32 && to.kind == Kind::sb && !r.unsafe) {
        auto q = expect<D>(from, to, b, n, f, space, true);
        if (agrees(q) && (!notifier || notified(q, nullptr))) { quirk = true; vh::violation("utf32-to-single-byte-takes-E000-FFFF-for-surrogates", what()); }
    }
    if (!good && !quirk) {
        // two stages: up to 16 code points are decoded ahead of what is encoded; invalid sequences among them are announced
        auto ahead = [&] {
            if (!r.two_stage || r.unsafe || rec.inv.size() <= e.inv.size()) return false;
            std::vector<Seg> inv; std::size_t past = 0;
            for (auto& x : decode(from, b, n, has_flag(f, Fl::lax_surrogate_policy))) { if (x.at >= e.at && ++past > 17) break; if (!x.ok) { inv.push_back(x); if (has_flag(f, Fl::stop_on_invalid_sequence)) break; } }
            if (rec.inv.size() > inv.size()) return false;
            Exp<D> q = e; q.inv.assign(inv.begin(), inv.begin() + (std::ptrdiff_t)rec.inv.size()); q.extra_inv = false;
            return notified(q, nullptr);
        };
        if (agrees(e) && ahead()) vh::violation("decode_encode-notifies-beyond-where-it-stops", what());
        else if (!agrees(e)) vh::violation("result", what() + vh::fmt(" : %s src_ptr %+zu wrote ", why_name(oc.why), oc.at) + vh::show(oc.out, 300) + vh::fmt(" expected %s src_ptr %+zu wrote ", why_name(e.why), e.at) + vh::show(e.out, 300));
        else { std::string d; notified(e, &d); vh::violation(r.two_stage ? "notified-two-stage" : "notified", what() + " notified" + d); }
    }
    for (D* p = res.dst; p != o.get() + space; ++p) if (*p != mark) { vh::violation("wrote-behind-dst_ptr", what() + vh::fmt(" at dst_ptr%+td", p - res.dst)); break; }
    vh::event(why_name(oc.why)); if (e.inv.size() && !r.unsafe) vh::event("invalid-sequences", e.inv.size()); if (e.uns.size()) vh::event("unsupported-codepoints", e.uns.size());
    return oc;
}
// code units of every class (UTF)
template <typename S> std::vector<S> representatives() {
    std::vector<S> v; static const unsigned u8[] = { 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xFF };
    static const unsigned u16[] = { 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xD801, 0xDBFF, 0xDC00, 0xDC01, 0xDFFF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF };
    static const unsigned u32[] = { 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu };
    if (sizeof(S) == 1) for (auto x : u8) v.push_back((S)x); else if (sizeof(S) == 2) for (auto x : u16) v.push_back((S)x); else for (auto x : u32) v.push_back((S)x);
    return v;
}
// the i-th sequence of representatives, by length
template <typename S> struct Sequences {
    std::vector<S> reps = representatives<S>(); std::vector<std::uint64_t> starts;
    explicit Sequences(int longest) { std::uint64_t total = 0; for (int l = 0; l <= longest; ++l) { starts.push_back(total); std::uint64_t k = 1; for (int i = 0; i < l; ++i) k *= reps.size(); total += k; } starts.push_back(total); }
    std::uint64_t up_to(int len) const { return starts[(std::size_t)len + 1]; }
    std::basic_string<S> get(std::uint64_t i) const { std::size_t l = 0; while (i >= starts[l + 1]) ++l; std::uint64_t x = i - starts[l]; std::basic_string<S> t; for (std::size_t k = 0; k < l; ++k) { t += reps[(std::size_t)(x % reps.size())]; x /= reps.size(); } return t; }
};
} // namespace trn
#endif
