// P20: where and why transcoding stops, and resuming.
#include "trn.hpp"
using namespace trn;
#ifndef CH
#define CH char
#endif
using S = CH;
template <typename D> static std::vector<Route<S, D>> pick_routes(Rng& g, Ch& from, Ch& to, bool utf) {
    auto a = utf ? std::make_pair(strf::utf<S>.to_dynamic(), utf_ch<S>()) : any_dynamic<S>(g); auto b = g.chance(1, 6) && std::is_same<S, D>::value ? any_dynamic<D>(g) : any_dynamic<D>(g);
    from = a.second; to = b.second;
    auto v = routes<S, D>("", a.first, b.first);
    if (from.kind != Kind::sb && to.kind != Kind::sb && from.kind != Kind::user && to.kind != Kind::user) { auto w = static_routes<S, D>("", strf::utf<S>, strf::utf<D>); v.insert(v.end(), w.begin(), w.end()); }
    return v;
}
template <typename D> static void one(Rng& g, const std::basic_string<S>* text = nullptr) {
    Ch from, to; auto v = pick_routes<D>(g, from, to, text);
    Fl f = gen_flags(g); bool lax = has_flag(f, Fl::lax_surrogate_policy);
    bool valid = true; if (text) for (auto& x : decode(from, text->data(), text->size(), lax)) valid = valid && x.ok;
    const Route<S, D>* rp; do rp = &g.pick(v); while (!valid && rp->unsafe);
    const auto& r = *rp;
    std::size_t n = g.chance(1, 6) ? g.below(3) : g.chance(1, 4) ? g.range(12, 40) : g.below(12);
    std::basic_string<S> t;
    if (text) t = *text;
    else if (r.unsafe) { t = gen_src<S>(g, from, n, false); if (lax && from.kind != Kind::sb && g.coin()) { put_cp(t, (char32_t)g.range(0xD800, 0xDBFF)); t += gen_src<S>(g, from, n / 2, false); vh::event("lax surrogates in unsafe"); } }
    else t = gen_src<S>(g, from, n, true);
    if (r.unsafe) { bool all = true; for (auto& x : decode(from, t.data(), t.size(), lax)) all = all && x.ok; if (!all) { vh::event("not-valid-for-unsafe"); return; } }
    Block<S> src(t.data(), t.size(), g.below(4));
    auto full = expect<D>(from, to, src.begin(), src.n, f, PTRDIFF_MAX / 4);
    std::size_t need = full.out.size();
    bool note = !g.chance(1, 8);
    // every size (or some of them)
    if (need < 24) for (std::size_t s = 0; s <= need + 2; ++s) judge<S, D>(r, from, to, src.begin(), src.n, f, (std::ptrdiff_t)s, note);
    else for (int i = 0; i < 12; ++i) judge<S, D>(r, from, to, src.begin(), src.n, f, (std::ptrdiff_t)(g.coin() ? need + 2 - g.below(6) : g.below(need + 3)), note);
    // in steps: concatenated it is the whole
    { std::basic_string<D> all; std::size_t at = 0; int steps = 0; Why w = Why::completed; std::size_t most = 1 + g.below(12);
      for (;;) { auto o = judge<S, D>(r, from, to, src.begin() + at, src.n - at, f, (std::ptrdiff_t)(g.below(most) + (steps % 3 == 2 ? 4 : 0)), note);
          all += o.out; at += o.at; ++steps; w = o.why; if (w != Why::insufficient_output_space || steps > 2000) break; }
      auto q = expect<D>(from, to, src.begin(), src.n, f, PTRDIFF_MAX / 4, true);
      bool quirky = from.kind == Kind::u32 && to.kind == Kind::sb && all == q.out && at == q.at && w == q.why;
      if (!quirky && (all != full.out || at != full.at || w != full.why)) vh::violation("resumed", describe(r, from, to, src.begin(), src.n, f, -1) + vh::fmt(" in %d steps: %s at %zu wrote ", steps, why_name(w), at) + vh::show(all, 300) + " expected " + vh::show(full.out, 300));
      if (steps > 1) vh::event("resumed", (std::uint64_t)steps - 1); }
    vh::event(r.unsafe ? "unsafe" : "safe"); if (r.two_stage) vh::event("two-stage");
    vh::nontrivial(vh::hash_of(t, full.out, std::string(from.name) + to.name + fl_name(f)));
    if (vh::want_sample()) vh::sample(describe(r, from, to, src.begin(), src.n, f, (std::ptrdiff_t)need));
}
static void run() {
    std::string c = cname<S>::v;
    // every sequence of up to 3 (quick) or 4 (thorough) units of all classes, from UTF
    static const Sequences<S> seq(4); const std::uint64_t per = 8;
    vh::section(("sequences-" + c).c_str(), (seq.up_to(3) + per - 1) / per, (seq.up_to(4) + per - 1) / per, [&](Rng& g, std::uint64_t id) {
        for (std::uint64_t i = id * per; i < id * per + per && i < seq.up_to(4); ++i) { auto t = seq.get(i); vh::event("representative sequences");
            switch (g.below(8)) { case 0: case 1: one<char>(g, &t); break; case 2: one<char8_t>(g, &t); break; case 3: case 4: one<char16_t>(g, &t); break; case 5: case 6: one<char32_t>(g, &t); break; default: one<wchar_t>(g, &t); } } });
    vh::section(("to-char-" + c).c_str(), 1500, 400000, [](Rng& g, std::uint64_t) { one<char>(g); });
    vh::section(("to-char8-" + c).c_str(), 600, 200000, [](Rng& g, std::uint64_t) { one<char8_t>(g); });
    vh::section(("to-char16-" + c).c_str(), 1000, 300000, [](Rng& g, std::uint64_t) { one<char16_t>(g); });
    vh::section(("to-char32-" + c).c_str(), 1000, 300000, [](Rng& g, std::uint64_t) { one<char32_t>(g); });
    vh::section(("to-wchar-" + c).c_str(), 600, 200000, [](Rng& g, std::uint64_t) { one<wchar_t>(g); });
}
VH_MAIN(run)
