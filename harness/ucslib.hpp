// The charsets of ucs.hpp as the library wants them: static_charset, static_transcoder and dynamic_charset_data.
#ifndef UCSLIB_HPP
#define UCSLIB_HPP
namespace ucs {
using tc::Ch; using tc::Kind;
inline Ch ch(strf::charset_id i) { return Ch{ Kind::user, nullptr, def(i).name, i }; }
template <typename C> inline Ch ch_of(strf::charset_id i) { return mine(i) ? ch(i) : tc::utf_ch<C>(); }
// what the library promises to whom it calls
inline void must(bool ok, const char* what) { if (!ok) vh::violation("called-wrongly", what); }
using Why = strf::transcode_stop_reason; using Fl = strf::transcode_flags;
inline unsigned long& calls() { static thread_local unsigned long n = 0; return n; }
template <typename S, typename D, typename Out> inline Why run(strf::charset_id from, strf::charset_id to, const S*& src, const S* end, Out&& out, strf::transcoding_error_notifier* nt, Fl f, bool safe) {
    must(src <= end && (src != nullptr || src == end), "transcoder: source"); ++calls();
    auto a = ch_of<S>(from), b = ch_of<D>(to); bool lax = (f & Fl::lax_surrogate_policy) != Fl::none;
    while (src != end) {
        auto x = tc::decode(a, src, (std::size_t)std::min<std::ptrdiff_t>(end - src, 6), lax)[0];     // no sequence is longer than 4
        bool inv = safe && !x.ok, uns = !inv && x.ok && !tc::has(b, x.cp);
        if (inv && (f & Fl::stop_on_invalid_sequence) != Fl::none) { if (nt) nt->invalid_sequence((int)sizeof(S), a.name, src, (std::ptrdiff_t)x.n); return Why::invalid_sequence; }
        if (uns && (f & Fl::stop_on_unsupported_codepoint) != Fl::none) { if (nt) nt->unsupported_codepoint(b.name, (unsigned)x.cp); return Why::unsupported_codepoint; }
        if (!out(tc::encode1<D>(b, x.ok ? x.cp : 0xFFFD))) return Why::insufficient_output_space;
        if (inv && nt) nt->invalid_sequence((int)sizeof(S), a.name, src, (std::ptrdiff_t)x.n);
        if (uns && nt) nt->unsupported_codepoint(b.name, (unsigned)x.cp);
        src += x.n;
    }
    return Why::completed;
}
template <typename S, typename D, strf::charset_id From, strf::charset_id To, bool Safe>
inline strf::transcode_result<S, D> transcode(const S* src, const S* end, D* dst, D* dend, strf::transcoding_error_notifier* nt, Fl f) {
    must(dst <= dend && dst != nullptr, "transcoder: destination");
    auto w = run<S, D>(From, To, src, end, [&](const auto& u) { if (dend - dst < (std::ptrdiff_t)u.size()) return false; for (auto x : u) *dst++ = x; return true; }, nt, f, Safe);
    return { src, dst, w };
}
template <typename S, typename D, strf::charset_id From, strf::charset_id To, bool Safe>
inline strf::transcode_size_result<S> size(const S* src, const S* end, std::ptrdiff_t limit, Fl f) {
    must(limit >= 0, "transcoder: size limit"); std::ptrdiff_t n = 0;
    auto w = run<S, D>(From, To, src, end, [&](const auto& u) { if (limit - n < (std::ptrdiff_t)u.size()) return false; n += (std::ptrdiff_t)u.size(); return true; }, nullptr, f, Safe);
    return { n, src, w };
}
template <typename S, typename D, strf::charset_id From, strf::charset_id To> struct Transcoder {
    using src_code_unit = S; using dst_code_unit = D;
    static strf::transcode_result<S, D> transcode(const S* s, const S* e, D* d, D* de, strf::transcoding_error_notifier* n, Fl f) { return ucs::transcode<S, D, From, To, true>(s, e, d, de, n, f); }
    static strf::transcode_result<S, D> unsafe_transcode(const S* s, const S* e, D* d, D* de, strf::transcoding_error_notifier* n, Fl f) { return ucs::transcode<S, D, From, To, false>(s, e, d, de, n, f); }
    static strf::transcode_size_result<S> transcode_size(const S* s, const S* e, std::ptrdiff_t l, Fl f) { return ucs::size<S, D, From, To, true>(s, e, l, f); }
    static strf::transcode_size_result<S> unsafe_transcode_size(const S* s, const S* e, std::ptrdiff_t l, Fl f) { return ucs::size<S, D, From, To, false>(s, e, l, f); }
    static constexpr strf::transcode_f<S, D> transcode_func() noexcept { return transcode; }
    static constexpr strf::transcode_size_f<S> transcode_size_func() noexcept { return transcode_size; }
    static constexpr strf::transcode_f<S, D> unsafe_transcode_func() noexcept { return unsafe_transcode; }
    static constexpr strf::transcode_size_f<S> unsafe_transcode_size_func() noexcept { return unsafe_transcode_size; }
};
template <typename C, strf::charset_id Id> struct Basics {
    static std::basic_string<C> enc(char32_t c) { return tc::encode1<C>(ch(Id), c); }
    static const char* name() noexcept { return def(Id).name; }
    static constexpr strf::charset_id id() noexcept { return Id; }
    static char32_t replacement_char() noexcept { return def(Id).repl; }
    static int replacement_char_size() noexcept { return (int)enc(0xFFFD).size(); }
    static int validate(char32_t c) { ++calls(); return c == 0xFFFD || has(c) ? (int)enc(c).size() : -1; }
    static int encoded_char_size(char32_t c) { ++calls(); return (int)enc(c).size(); }
    static C* encode_char(C* p, char32_t c) { must(p != nullptr, "encode_char"); ++calls(); for (auto u : enc(c)) *p++ = u; return p; }
    static void encode_fill(strf::transcode_dst<C>& d, std::ptrdiff_t n, char32_t c) { ++calls(); auto u = enc(c); for (; n > 0 && d.good(); --n) { d.ensure((std::ptrdiff_t)u.size()); for (auto x : u) { *d.buffer_ptr() = x; d.advance(); } } }
    static void write_replacement_char(strf::transcode_dst<C>& d) { encode_fill(d, 1, def(Id).repl); }
    static strf::count_codepoints_result<C> count_codepoints(const C* b, const C* e, std::ptrdiff_t max) {
        must(b <= e && max >= 0, "count_codepoints"); ++calls(); std::ptrdiff_t n = 0; auto u = [](const C* p) { return [p](std::size_t i) { return tc::unit(p[i]); }; };
        while (b < e && n < max) { b += next(u(b), 0, (std::size_t)(e - b)).n; ++n; } return { n, b };
    }
    static strf::count_codepoints_result<C> count_codepoints_fast(const C* b, const C* e, std::ptrdiff_t max) { return count_codepoints(b, e, max); }
    static char32_t decode_unit(C c) noexcept { return tc::unit(c) < 0x80 ? tc::unit(c) : 0xFFFD; }
};
inline constexpr bool finds_from(strf::charset_id i) { return which(i) == Which::v2; }
inline constexpr bool finds_to(strf::charset_id i) { return which(i) == Which::v3; }
#define UCS_ALL(X) X(ucs::sized(ucs::Which::v1, 1)) X(ucs::sized(ucs::Which::v1, 2)) X(ucs::sized(ucs::Which::v1, 4)) X(ucs::sized(ucs::Which::v2, 1)) X(ucs::sized(ucs::Which::v2, 2)) X(ucs::sized(ucs::Which::v2, 4)) \
    X(ucs::sized(ucs::Which::v3, 1)) X(ucs::sized(ucs::Which::v3, 2)) X(ucs::sized(ucs::Which::v3, 4))
} // namespace ucs
namespace strf {
#define UCS_T(ID) \
    template <typename S, typename D> class static_transcoder<S, D, ID, ID> : public ucs::Transcoder<S, D, ID, ID> {}; \
    template <typename D> class static_transcoder<char32_t, D, csid_utf32, ID> : public ucs::Transcoder<char32_t, D, csid_utf32, ID> {}; \
    template <typename S> class static_transcoder<S, char32_t, ID, csid_utf32> : public ucs::Transcoder<S, char32_t, ID, csid_utf32> {};
UCS_ALL(UCS_T)
#undef UCS_T
} // namespace strf
// Transcoders to and from others are offered by find_transcoder_from / find_transcoder_to only: a dynamic_transcoder can only be made
// of a static_transcoder, so these are static_transcoders between ids that nobody asks for.
namespace ucs { constexpr strf::charset_id hidden(unsigned kind, std::size_t s, std::size_t d) { return (strf::charset_id)(0x7F020000u + kind * 256 + (unsigned)(s * 16 + d)); } }
namespace strf {
// kinds: UTF to 2, 1 to 2, 3 to UTF, 3 to 1
#define UCS_H1(SS, DD) \
    template <typename S, typename D> class static_transcoder<S, D, ucs::hidden(1, SS, DD), ucs::hidden(1, SS, DD)> : public ucs::Transcoder<S, D, get_csid_utf<S>(), ucs::sized(ucs::Which::v2, DD)> {}; \
    template <typename S, typename D> class static_transcoder<S, D, ucs::hidden(2, SS, DD), ucs::hidden(2, SS, DD)> : public ucs::Transcoder<S, D, ucs::sized(ucs::Which::v1, SS), ucs::sized(ucs::Which::v2, DD)> {}; \
    template <typename S, typename D> class static_transcoder<S, D, ucs::hidden(3, SS, DD), ucs::hidden(3, SS, DD)> : public ucs::Transcoder<S, D, ucs::sized(ucs::Which::v3, SS), get_csid_utf<D>()> {}; \
    template <typename S, typename D> class static_transcoder<S, D, ucs::hidden(4, SS, DD), ucs::hidden(4, SS, DD)> : public ucs::Transcoder<S, D, ucs::sized(ucs::Which::v3, SS), ucs::sized(ucs::Which::v1, DD)> {};
#define UCS_H(SS) UCS_H1(SS, 1) UCS_H1(SS, 2) UCS_H1(SS, 4)
UCS_H(1) UCS_H(2) UCS_H(4)
#undef UCS_H
#undef UCS_H1
} // namespace strf
namespace ucs {
template <typename S, typename D, unsigned Kind> strf::dynamic_transcoder<S, D> offer() { ++calls(); return strf::dynamic_transcoder<S, D>{ strf::static_transcoder<S, D, hidden(Kind, sizeof(S), sizeof(D)), hidden(Kind, sizeof(S), sizeof(D))>{} }; }
template <typename C, bool> struct Froms {}; template <typename C, bool> struct Tos {};
// none from, or to, char8_t
template <typename C> struct Froms<C, true> {
    template <typename S> static strf::dynamic_transcoder<S, C> from(strf::charset_id i) { if (i == strf::get_csid_utf<S>()) return offer<S, C, 1>(); if (i == sized(Which::v1, sizeof(S))) return offer<S, C, 2>(); return {}; }
    static strf::dynamic_transcoder<char, C> find_transcoder_from(strf::tag<char>, strf::charset_id i) { return from<char>(i); }
    static strf::dynamic_transcoder<char16_t, C> find_transcoder_from(strf::tag<char16_t>, strf::charset_id i) { return from<char16_t>(i); }
    static strf::dynamic_transcoder<wchar_t, C> find_transcoder_from(strf::tag<wchar_t>, strf::charset_id i) { return from<wchar_t>(i); }
};
template <typename C> struct Tos<C, true> {
    template <typename D> static strf::dynamic_transcoder<C, D> to(strf::charset_id i) { if (i == strf::get_csid_utf<D>()) return offer<C, D, 3>(); if (i == sized(Which::v1, sizeof(D))) return offer<C, D, 4>(); return {}; }
    static strf::dynamic_transcoder<C, char> find_transcoder_to(strf::tag<char>, strf::charset_id i) { return to<char>(i); }
    static strf::dynamic_transcoder<C, char16_t> find_transcoder_to(strf::tag<char16_t>, strf::charset_id i) { return to<char16_t>(i); }
    static strf::dynamic_transcoder<C, wchar_t> find_transcoder_to(strf::tag<wchar_t>, strf::charset_id i) { return to<wchar_t>(i); }
};
template <typename C, strf::charset_id Id> inline strf::dynamic_charset<C> dynamic() {
    using B = Basics<C, Id>; using T = strf::dynamic_transcoder<C, C>;
    static const auto data = [] {
        strf::dynamic_charset_data<C> d { B::name(), Id, B::replacement_char(), B::replacement_char_size(), B::validate, B::encoded_char_size, B::encode_char, B::encode_fill, B::count_codepoints_fast, B::count_codepoints,
            B::write_replacement_char, B::decode_unit, T{ strf::static_transcoder<C, C, Id, Id>{} },
            strf::dynamic_transcoder<char32_t, C>{ strf::static_transcoder<char32_t, C, strf::csid_utf32, Id>{} }, strf::dynamic_transcoder<C, char32_t>{ strf::static_transcoder<C, char32_t, Id, strf::csid_utf32>{} } };
        if constexpr (finds_from(Id)) { using F = Froms<C, true>; d.find_transcoder_from_wchar = F::template from<wchar_t>; d.find_transcoder_from_char16 = F::template from<char16_t>; d.find_transcoder_from_char = F::template from<char>; }
        if constexpr (finds_to(Id)) { using F = Tos<C, true>; d.find_transcoder_to_wchar = F::template to<wchar_t>; d.find_transcoder_to_char16 = F::template to<char16_t>; d.find_transcoder_to_char = F::template to<char>; }
        return d; }();
    return strf::dynamic_charset<C>{ data };
}
// whether find_transcoder has something to find (static charsets or dynamic)
template <typename S, typename D> inline bool offered(const Ch& a, const Ch& b) {
    const bool u32s = std::is_same<S, char32_t>::value, u32d = std::is_same<D, char32_t>::value;
    if (u32s || u32d) return true;
    if (a.id == b.id && std::is_same<S, D>::value) return true;
    auto easy = [](strf::charset_id i, strf::charset_id utf) { return i == utf || (mine(i) && which(i) == Which::v1); };
    if (finds_from(b.id) && !std::is_same<S, char8_t>::value && easy(a.id, strf::get_csid_utf<S>())) return true;
    if (finds_to(a.id) && !std::is_same<D, char8_t>::value && easy(b.id, strf::get_csid_utf<D>())) return true;
    return false;
}
} // namespace ucs
namespace strf {
#define UCS_C(ID) template <typename C> class static_charset<C, ID> : public ucs::Basics<C, ID>, public ucs::Froms<C, ucs::finds_from(ID)>, public ucs::Tos<C, ucs::finds_to(ID)> { public: \
        using code_unit = C; using B = ucs::Basics<C, ID>; \
        static strf::encode_char_f<C> encode_char_func() noexcept { return B::encode_char; } static strf::encode_fill_f<C> encode_fill_func() noexcept { return B::encode_fill; } \
        static strf::validate_f validate_func() noexcept { return B::validate; } static strf::write_replacement_char_f<C> write_replacement_char_func() noexcept { return B::write_replacement_char; } \
        static constexpr strf::static_transcoder<char32_t, C, csid_utf32, ID> from_u32() noexcept { return {}; } static constexpr strf::static_transcoder<C, char32_t, ID, csid_utf32> to_u32() noexcept { return {}; } \
        static constexpr strf::static_transcoder<C, C, ID, ID> sanitizer() noexcept { return {}; } static strf::dynamic_charset<C> to_dynamic() { return ucs::dynamic<C, ID>(); } };
UCS_ALL(UCS_C)
#undef UCS_C
} // namespace strf
#endif
