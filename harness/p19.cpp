// P19: UTF to UTF.
#include "trn.hpp"
using namespace trn;
#ifndef CH
#define CH char
#endif
using S = CH;
static const Ch from = utf_ch<S>();
template <typename D> struct To {
    Ch to = utf_ch<D>(); std::vector<Route<S, D>> v;
    To() { v = routes<S, D>("", strf::utf<S>.to_dynamic(), strf::utf<D>.to_dynamic()); auto w = static_routes<S, D>("", strf::utf<S>, strf::utf<D>); v.insert(v.end(), w.begin(), w.end()); }
};
template <typename D> static const To<D>& to() { static const To<D> t; return t; }
// one text, all of it, exact-size destination; by one of the routes
template <typename D> static void whole(Rng& g, const S* b, std::size_t n, Fl f) {
    auto& t = to<D>(); auto e = expect<D>(from, t.to, b, n, f, PTRDIFF_MAX / 4);
    bool valid = e.inv.empty(); const Route<S, D>* r; do r = &g.pick(t.v); while (r->unsafe && !valid);
    auto o = judge<S, D>(*r, from, t.to, b, n, f, (std::ptrdiff_t)e.out.size() + (g.chance(1, 4) ? (long)g.below(9) : 0));
    if (o.why != Why::completed && valid) vh::violation("not-completed", describe(*r, from, t.to, b, n, f, -1));
    auto z = r->size(b, b + n, PTRDIFF_MAX / 4, f);
    if (z.n != (std::ptrdiff_t)e.out.size() || z.why != Why::completed || z.src != b + n) vh::violation("size", describe(*r, from, t.to, b, n, f, -1) + vh::fmt(" transcode_size %td %s expected %zu", z.n, why_name(z.why), e.out.size()));
    if (valid) { // and back
        auto back = expect<S>(t.to, from, e.out.data(), e.out.size(), f, PTRDIFF_MAX / 4);
        bool same = back.out == std::basic_string<S>(b, n); bool lone = false; for (auto& x : decode(from, b, n, true)) lone = lone || surrogate(x.cp);
        if (!same && !lone) vh::violation("model", "reference does not round-trip"); }
    vh::event(valid ? "valid" : "ill-formed");
    vh::nontrivial(vh::hash_of(std::basic_string<S>(b, n), (int)sizeof(D), (int)f));
}
static void any_dst(Rng& g, const std::basic_string<S>& t, Fl f) {
    Block<S> src(t.data(), t.size(), g.below(9));
    switch (g.below(8)) { case 0: case 1: whole<char>(g, src.begin(), src.n, f); break; case 2: whole<char8_t>(g, src.begin(), src.n, f); break; case 3: case 4: whole<char16_t>(g, src.begin(), src.n, f); break; case 5: case 6: whole<char32_t>(g, src.begin(), src.n, f); break; default: whole<wchar_t>(g, src.begin(), src.n, f); }
    if (vh::want_sample()) vh::sample(vh::show(t, 80));
}
static Fl gen_lax(Rng& g) { return g.chance(1, 3) ? Fl::lax_surrogate_policy : Fl::none; }
static void run() {
    std::string c = cname<S>::v;
    // every sequence of up to 3 (quick) or 5 (thorough) representatives, in a context
    static const Sequences<S> seq(5); const std::uint64_t per = 16;
    vh::section(("sequences-" + c).c_str(), (seq.up_to(3) + per - 1) / per, (seq.up_to(5) + per - 1) / per, [&](Rng& g, std::uint64_t id) {
        for (std::uint64_t i = id * per; i < id * per + per && i < seq.up_to(5); ++i) {
            auto t = seq.get(i);
            any_dst(g, t, gen_lax(g)); vh::event("representative sequences");
            if (t.size() <= 2) { any_dst(g, std::basic_string<S>(g.below(20), (S)'a') + t + std::basic_string<S>(g.below(20), (S)'z'), gen_lax(g)); }
        } });
    // every code point
    vh::exhaustive(("code-points-" + c).c_str(), 0x110000 / 128, [&](Rng& g, std::uint64_t id) {
        std::basic_string<S> t; for (unsigned i = 0; i < 128; ++i) put_cp(t, (char32_t)(id * 128 + i));
        auto f = gen_lax(g); any_dst(g, t, f); vh::event("code points", 128); });
    // random text, any alignment
    vh::section(("random-" + c).c_str(), 4000, 1500000, [&](Rng& g, std::uint64_t) {
        std::size_t n = g.chance(1, 3) ? g.range(30, 200) : g.below(30); any_dst(g, gen_src<S>(g, from, n, g.chance(3, 4)), gen_lax(g)); });
    // pieces put next to one another: ASCII runs of every length around each kind of ill-formed sequence
    vh::section(("runs-" + c).c_str(), 2000, 300000, [&](Rng& g, std::uint64_t) {
        std::basic_string<S> t; int k = (int)g.range(1, 4); for (int i = 0; i < k; ++i) { t.append((std::size_t)g.below(35), (S)g.range(0x20, 0x7E)); if (g.coin()) put_bad(g, from, t); else put_cp(t, gen_scalar(g)); if (g.coin()) t.append((std::size_t)g.below(9), (S)'e'); }
        any_dst(g, t, gen_lax(g)); });
}
VH_MAIN(run)
