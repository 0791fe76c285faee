// P22: single-byte charsets map as the standards define (exhaustive).
#include "trn.hpp"
#include <strf/to_string.hpp>
using namespace trn;
#ifndef CH
#define CH char
#endif
using S = CH;
struct Fns {
    std::string how; strf::transcode_f<S, char32_t> dec, udec; strf::transcode_f<char32_t, S> enc, uenc; strf::transcode_size_f<S> dsize; strf::transcode_size_f<char32_t> esize;
    std::function<char32_t(S)> unit; std::function<S*(S*, char32_t)> put; std::function<int(char32_t)> validate, size;
};
template <typename Cs> static Fns fns(const char* how, Cs cs) {
    return { how, cs.to_u32().transcode_func(), cs.to_u32().unsafe_transcode_func(), cs.from_u32().transcode_func(), cs.from_u32().unsafe_transcode_func(), cs.to_u32().transcode_size_func(), cs.from_u32().transcode_size_func(),
        [cs](S c) { return cs.decode_unit(c); }, [cs](S* p, char32_t c) { return cs.encode_char(p, c); }, [cs](char32_t c) { return cs.validate(c); }, [cs](char32_t c) { return cs.encoded_char_size(c); } };
}
struct One { Ch ch; strf::dynamic_charset<S> dyn; std::vector<Fns> f; };
static const std::vector<One>& all() {
    static const std::vector<One> v = [] {
        std::vector<One> r;
        for (int i = 0; i < sb_count; ++i) {
            auto d = sb_dynamic<S>(i); One o{ d.second, d.first, {} }; int n = 0;
#define X(csx, nm) if (n++ == i) { o.f.push_back(fns("static", strf::csx<S>)); o.f.push_back(fns("dynamic", strf::csx<S>.to_dynamic())); }
            TC_ALL_SB(X)
#undef X
            r.push_back(o);
        }
        return r;
    }();
    return v;
}
static const S marker = (S)0x01;
// decoding: each byte, alone and between others
static void bytes(std::uint64_t idx) {
    const One& o = all()[idx / 256]; int b = (int)(idx % 256); char32_t want = o.ch.t->dec[b]; bool ok = want != 0xFFFF; S c = (S)(unsigned char)b;
    std::string who = vh::fmt("%s byte %02X", o.ch.name, b); std::uint64_t seen = 0;
    for (auto& f : o.f) {
        std::unique_ptr<S[]> p(new S[1]{ c }); char32_t out[2] = { 7, 7 };
        auto r = f.dec(p.get(), p.get() + 1, out, out + 1, nullptr, Fl::none); vh::event("byte decoded");
        if (r.stop_reason != Why::completed || r.dst_ptr != out + 1 || out[0] != (ok ? want : 0xFFFDu) || out[1] != 7) vh::violation("decode", f.how + " " + who + vh::fmt(" gives U+%X, expected U+%X", (unsigned)out[0], (unsigned)(ok ? want : 0xFFFDu)));
        r = f.dec(p.get(), p.get() + 1, out, out + 1, nullptr, Fl::stop_on_invalid_sequence);
        if ((r.stop_reason == Why::completed) != ok || (!ok && (r.stop_reason != Why::invalid_sequence || r.src_ptr != p.get() || r.dst_ptr != out))) vh::violation("decode-validity", f.how + " " + who + (ok ? " is taken for invalid" : " is not taken for invalid"));
        auto z = f.dsize(p.get(), p.get() + 1, 5, Fl::stop_on_invalid_sequence); if ((z.stop_reason == Why::completed) != ok || z.ssize != (ok ? 1 : 0)) vh::violation("decode-validity", f.how + " " + who + ": transcode_size " + why_name(z.stop_reason));
        if (ok) { out[0] = 7; f.udec(p.get(), p.get() + 1, out, out + 1, nullptr, Fl::none); if (out[0] != want) vh::violation("decode", f.how + " unsafe " + who + vh::fmt(" gives U+%X, expected U+%X", (unsigned)out[0], (unsigned)want)); }
        if (f.unit(c) != (ok ? want : 0xFFFDu)) vh::violation("decode_unit", f.how + " " + who + vh::fmt(" gives U+%X, expected U+%X", (unsigned)f.unit(c), (unsigned)(ok ? want : 0xFFFDu)));
        // and back
        if (ok) { S back[2] = { marker, marker }; auto e = f.enc(&want, &want + 1, back, back + 1, nullptr, Fl::stop_on_unsupported_codepoint | Fl::stop_on_invalid_sequence); vh::event("round trip"); if (e.stop_reason != Why::completed || back[0] != c) vh::violation("round-trip", f.how + " " + who + vh::fmt(" is U+%X, which encodes to %02X", (unsigned)want, (unsigned)unit(back[0]))); }
        seen = vh::mix(seen ^ out[0]);
    }
    if (!ok) vh::event("unassigned byte");
    vh::nontrivial(vh::hash_of(who, seen));
}
// encoding: 4096 code points at a time
static void points(std::uint64_t idx) {
    const One& o = all()[idx / 275]; char32_t base = (char32_t)(idx % 275) * 4096; // up to 0x112FFF
    u32s src(4096, 0); for (unsigned i = 0; i < 4096; ++i) src[i] = base + i;
    std::basic_string<S> want(4096, (S)'?'); std::vector<bool> has(4096);
    for (unsigned i = 0; i < 4096; ++i) { auto it = o.ch.t->enc.find(src[i]); if (src[i] == 0xFFFD) has[i] = true; /* the replacement character: '?' by definition */ if (it != o.ch.t->enc.end()) { has[i] = true; want[i] = (S)(unsigned char)it->second; vh::event("assigned code point"); } }
    auto who = [&](unsigned i) { return vh::fmt("%s U+%X ", o.ch.name, (unsigned)src[i]); };
    auto compare = [&](const std::string& how, const std::basic_string<S>& got, bool invalid_too = true) {
        vh::event("code points encoded", 4096);
        if (got.size() != 4096) { vh::violation("encode", how + vh::fmt(" %s U+%X... : %zu characters instead of 4096", o.ch.name, (unsigned)base, got.size())); return; }
        for (unsigned i = 0; i < 4096; ++i) if (got[i] != want[i] && (invalid_too || scalar(src[i]))) { vh::violation("encode", how + " " + who(i) + vh::fmt("gives %02X, expected %02X", (unsigned)unit(got[i]), (unsigned)unit(want[i]))); return; }
    };
    for (auto& f : o.f) {
        for (Fl fl : { Fl::none, Fl::lax_surrogate_policy }) { std::basic_string<S> got(4096, marker); auto r = f.enc(src.data(), src.data() + 4096, &got[0], &got[0] + 4096, nullptr, fl); if (r.stop_reason != Why::completed || r.dst_ptr != &got[0] + 4096) vh::violation("encode", f.how + vh::fmt(" %s U+%X... : not completed", o.ch.name, (unsigned)base)); compare(f.how + " transcode " + fl_name(fl), got); }
        { std::basic_string<S> got(4096, marker); f.uenc(src.data(), src.data() + 4096, &got[0], &got[0] + 4096, nullptr, Fl::none); compare(f.how + " unsafe_transcode", got, false); }
        for (unsigned i = 0; i < 4096; ++i) {
            S out[3] = { marker, marker, marker }; S* e = f.put(out, src[i]);
            if (e != out + 1 || out[0] != want[i] || out[1] != marker) vh::violation("encode_char", f.how + " " + who(i) + vh::fmt("gives %02X, expected %02X", (unsigned)unit(out[0]), (unsigned)unit(want[i])));
            if (f.size(src[i]) != 1) vh::violation("encoded_char_size", f.how + " " + who(i) + vh::fmt("%d", f.size(src[i])));
            int v = f.validate(src[i]); if (v != (has[i] ? 1 : -1)) vh::violation("validate", f.how + " " + who(i) + vh::fmt("%d", v));
        }
        // with the stop flags: goes exactly as far as the next code point that is not there
        Fl stop = Fl::stop_on_unsupported_codepoint | Fl::stop_on_invalid_sequence | Fl::lax_surrogate_policy; unsigned at = 0;
        while (at < 4096) {
            unsigned next = at; while (next < 4096 && has[next]) ++next;
            std::unique_ptr<S[]> buf(new S[4096]); auto r = f.enc(src.data() + at, src.data() + 4096, buf.get(), buf.get() + 4096, nullptr, stop); auto z = f.esize(src.data() + at, src.data() + 4096, 5000, stop); auto got_to = (unsigned)(r.src_ptr - src.data());
            if (got_to != next || (r.stop_reason == Why::completed) != (next == 4096)) vh::violation("encode-support", f.how + " " + who(got_to < 4096 ? std::min(got_to, next) : next) + vh::fmt("stopped at U+%X (%s), expected at U+%X", (unsigned)(base + got_to), why_name(r.stop_reason), (unsigned)(base + next)));
            if (z.src_ptr != src.data() + next || z.ssize != (std::ptrdiff_t)(next - at)) vh::violation("encode-support", f.how + " transcode_size " + who(next < 4096 ? next : 4095) + vh::fmt("stopped at U+%X (%s), expected at U+%X", (unsigned)(base + (unsigned)(z.src_ptr - src.data())), why_name(z.stop_reason), (unsigned)(base + next)));
            at = next + 1; while (at < 4096 && !has[at]) { auto q = f.enc(&src[at], &src[at] + 1, buf.get(), buf.get() + 1, nullptr, stop); if (q.stop_reason == Why::completed) vh::violation("encode-support", f.how + " " + who(at) + "is taken for supported"); ++at; }
        }
    }
    // printed
    if (base < 0x110000) {
        auto got = strf::to_basic_string<S>.with(o.dyn).reserve(4096)(strf::sani(src, strf::utf32<char32_t>)); compare("printed", got);
        std::u16string u16; std::string u8; for (auto c : src) { u16 += enc1<char16_t>(scalar(c) ? c : 0xFFFD); u8 += enc1<char>(scalar(c) ? c : 0xFFFD); }
        compare("printed from UTF-16", strf::to_basic_string<S>.with(o.dyn).reserve_calc()(strf::sani(u16, strf::utf16<char16_t>)));
        compare("printed from UTF-8", strf::to_basic_string<S>.with(o.dyn)(strf::transcode(u8, strf::utf8<char>)));
    }
    vh::nontrivial(vh::hash_of(want, std::string(o.ch.name) + std::to_string(base)));
    if (vh::want_sample()) vh::sample(who(0) + "and 4095 more");
}
// long random text: decoded, encoded, decoded
static void mixed(Rng& g) {
    const One& o = g.pick(all()); auto& f = g.pick(o.f);
    std::size_t n = g.range(1, 600); std::basic_string<S> s; for (std::size_t i = 0; i < n; ++i) s += (S)(unsigned char)(g.coin() ? g.below(256) : 0x80 + g.below(128));
    u32s want; std::basic_string<S> back; for (S c : s) { char32_t d = o.ch.t->dec[unit(c) & 0xFF]; bool ok = d != 0xFFFF; want += ok ? d : U'\uFFFD'; back += ok ? c : (S)'?'; }
    auto got = strf::to_u32string(strf::sani(s, o.dyn)); if (got != want) vh::violation("decode-text", std::string(o.ch.name) + " " + vh::show(s, 300) + " gives " + vh::show(got, 300));
    std::basic_string<S> b2(n, marker); auto r = f.enc(got.data(), got.data() + n, &b2[0], &b2[0] + n, nullptr, Fl::none); if (r.stop_reason != Why::completed || b2 != back) vh::violation("round-trip-text", f.how + " " + o.ch.name + " " + vh::show(s, 300) + " comes back as " + vh::show(b2, 300));
    // through UTF-16 and UTF-8
    auto h = strf::to_u16string(strf::transcode(s, o.dyn)); auto b3 = strf::to_basic_string<S>.with(o.dyn)(strf::transcode(h)); if (b3 != back) vh::violation("round-trip-text", std::string("UTF-16 ") + o.ch.name + " " + vh::show(s, 300) + " comes back as " + vh::show(b3, 300));
    auto u = strf::to_u8string(strf::transcode(s, o.dyn)); auto b4 = strf::to_basic_string<S>.with(o.dyn)(strf::transcode(u, strf::utf8<char8_t>)); if (b4 != back) vh::violation("round-trip-text", std::string("UTF-8 ") + o.ch.name + " " + vh::show(s, 300) + " comes back as " + vh::show(b4, 300));
    // into another single-byte charset
    const One& p = g.pick(all()); std::basic_string<S> other; for (auto c : want) other += encode1<S>(p.ch, c); if (p.ch.id == o.ch.id) other = s;
    auto b5 = strf::to_basic_string<S>.with(p.dyn)(strf::transcode(s, o.dyn)); if (b5 != other) vh::violation("other-charset", std::string(o.ch.name) + " to " + p.ch.name + " " + vh::show(s, 300) + " gives " + vh::show(b5, 300));
    vh::event("long text"); vh::nontrivial(vh::hash_of(s, std::string(o.ch.name) + p.ch.name));
    if (vh::want_sample()) vh::sample(std::string(o.ch.name) + " to " + p.ch.name + " " + vh::show(s, 100));
}
static void run() {
    std::string c = cname<S>::v;
    vh::exhaustive(("bytes-" + c).c_str(), 25 * 256, [](Rng&, std::uint64_t i) { bytes(i); });
    vh::exhaustive(("code-points-" + c).c_str(), 25 * 275, [](Rng&, std::uint64_t i) { points(i); });
    vh::section(("text-" + c).c_str(), 3000, 600000, [](Rng& g, std::uint64_t) { mixed(g); });
}
VH_MAIN(run)
