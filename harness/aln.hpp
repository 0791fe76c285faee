// Reference alignment shared by P12 and P16; included after C and S are defined.
#ifndef ALN_HPP
#define ALN_HPP
static q16 Q(strf::width_t w) { return w.underlying_value(); }
static int round_q(q16 v) { q16 a = v < 0 ? -v : v; q16 r = (a + 0x7FFF) >> 16; return (int)(v < 0 ? -r : r); }
static char32_t any_fill(Rng& g) { return g.chance(1, 4) ? gen_any_cp(g) : gen_fill(g); }
static AF rand_af(Rng& g) { AF a = gen_af(g, g.chance(1, 30) ? 4000 : 120); a.fill = any_fill(g); return a; }
// a width close to the one of the content
static void tune(Rng& g, AF& a, q16 width) { if (g.coin()) { q16 v = width + (q16)g.range(-2, 6) * 0x10000; static const int f[] = { 0, 0, 0x8000, 0x7FFF, 0x8001, 1, -1, 0x4000 }; v += g.pick(f); if (v < INT32_MAX && v > INT32_MIN) a.w = strf::width_t::from_underlying((std::int32_t)v); } }
template <typename F> static auto apply(Rng& g, F&& f, const AF& a) {
    if (g.coin()) return std::forward<F>(f).set_alignment_format(to_strf(a));
    if (g.coin()) { auto x = std::forward<F>(f).fill(a.fill); return a.al == Al::left ? std::move(x) < a.w : a.al == Al::center ? std::move(x) ^ a.w : std::move(x) > a.w; }
    auto x = a.al == Al::left ? std::forward<F>(f) < a.w : a.al == Al::center ? std::forward<F>(f) ^ a.w : std::forward<F>(f) > a.w;
    return std::move(x).fill(a.fill);
}
static S expected(const S& content, q16 width, const AF& a, DestCs dc) {
    int n = Q(a.w) > width ? round_q(Q(a.w) - width) : 0;
    if (n <= 0) return content;
    int l = a.al == Al::left ? 0 : a.al == Al::right ? n : n / 2;
    S fill = dc.raw<C>(a.fill), r;
    for (int i = 0; i < l; ++i) r += fill;
    r += content;
    for (int i = l; i < n; ++i) r += fill;
    return r;
}
static std::string af_desc(const AF& a) { return vh::fmt("align=%s fill=U+%X width=%d/65536", al_name(a.al).c_str(), (unsigned)a.fill, a.w.underlying_value()); }
static void judge(const char* kind, const S& got, const S& content, q16 width, const AF& a, DestCs dc, const std::string& what) {
    S ref = expected(content, width, a, dc);
    int n = Q(a.w) > width ? round_q(Q(a.w) - width) : 0;
    vh::event(n > 0 ? "filled" : n == 0 && Q(a.w) > width ? "rounded-to-no-fill" : "no-fill");
    if (n > 0 && !dc.has(a.fill)) vh::event("fill-not-encodable");
    expect_eq(got, ref, kind, what + " " + af_desc(a) + " charset " + dc.name());
    if (vh::want_sample()) vh::sample(std::string(kind) + " " + what.substr(0, 60) + " " + af_desc(a) + " -> " + vh::show(got, 60));
    vh::nontrivial(vh::hash_of(got, (int)a.al, a.w.underlying_value()));
}
// text every code point of which the destination charset has
static u32s text_for(Rng& g, DestCs dc, std::size_t n) {
    u32s s = g.coin() ? wid::gen_wtext(g, n) : gen_text(g, n);
    for (auto& c : s) if (!dc.has(c) || (dc.id != Cs::utf && c == 0xFFFD) || wid::gcb(c) == wid::TooNew) c = U'k';
    return s;
}
static std::size_t len(Rng& g) { return g.chance(1, 6) ? gen_len(g) : g.below(14); }
#endif
