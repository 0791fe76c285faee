// P21: all the ways of transcoding agree.
#include "trn.hpp"
using namespace trn;
#ifndef CH
#define CH char
#endif
using S = CH;
template <typename D> static Route<S, D> from_functions(const std::string& n, bool unsafe, strf::transcode_f<S, D> t, strf::transcode_size_f<S> z) {
    return { n, unsafe, false,
        [t](const S* b, const S* e, D* o, D* oe, strf::transcoding_error_notifier* nt, Fl f) -> Res<S, D> { auto r = t(b, e, o, oe, nt, f); return { r.src_ptr, r.dst_ptr, r.stop_reason }; },
        [z](const S* b, const S* e, std::ptrdiff_t l, Fl f) -> SizeRes<S> { auto r = z(b, e, l, f); return { r.ssize, r.src_ptr, r.stop_reason }; },
        [t](const S* b, const S* e, strf::destination<D>& o, strf::transcoding_error_notifier* nt, Fl f) -> SizeRes<S> { auto r = strf::transcode(t, b, e, o, nt, f); return { r.ssize, r.src_ptr, r.stop_reason }; } };
}
template <typename D, typename T> static void add_functions(std::vector<Route<S, D>>& v, const std::string& n, T t, bool supported) {
    bool has_it = t.transcode_func() != nullptr;
    if (has_it != supported) vh::violation("find_transcoder", n + (has_it ? " is not null" : " is null"));
    vh::event(has_it ? "found" : "null-transcoder");
    if (!has_it) return;
    v.push_back(from_functions<D>(n, false, t.transcode_func(), t.transcode_size_func())); v.push_back(from_functions<D>(n + " (unsafe)", true, t.unsafe_transcode_func(), t.unsafe_transcode_size_func()));
}
static bool supported(const Ch& a, const Ch& b) { return (a.kind == b.kind && (a.kind != Kind::sb || a.id == b.id)) || (a.kind != Kind::sb && b.kind != Kind::sb) || a.kind == Kind::u32 || b.kind == Kind::u32; }
// static charsets: one of the two single-byte
template <typename SS, typename D> static std::vector<Route<S, D>> from_static_sb(int i, Ch& from, Ch& to) {
    std::vector<Route<S, D>> v; int n = 0; from = sb_dynamic<SS>(i).second;
#define X(csx, nm) if (n++ == i) { auto s = strf::csx<SS>; to = utf_ch<D>(); add_functions<D>(v, "find_transcoder(static " nm ", static utf)", strf::find_transcoder(s, strf::utf<D>), supported(from, to)); \
        add_functions<D>(v, "find_transcoder(static " nm ", dynamic utf)", strf::find_transcoder(s, strf::utf<D>.to_dynamic()), supported(from, to)); \
        if constexpr (std::is_same<D, char32_t>::value) add_functions<D>(v, "static " nm ".to_u32()", s.to_u32(), true); }
    TC_ALL_SB(X)
#undef X
    return v;
}
template <typename SS, typename D> static std::vector<Route<S, D>> to_static_sb(int i, Ch& from, Ch& to) {
    std::vector<Route<S, D>> v; int n = 0; to = sb_dynamic<D>(i).second; from = utf_ch<SS>();
#define X(csx, nm) if (n++ == i) { auto d = strf::csx<D>; \
        add_functions<D>(v, "find_transcoder(static utf, static " nm ")", strf::find_transcoder(strf::utf<SS>, d), supported(from, to)); \
        add_functions<D>(v, "find_transcoder(dynamic utf, static " nm ")", strf::find_transcoder(strf::utf<SS>.to_dynamic(), d), supported(from, to)); \
        if constexpr (std::is_same<SS, char32_t>::value) add_functions<D>(v, "static " nm ".from_u32()", d.from_u32(), true); }
    TC_ALL_SB(X)
#undef X
    return v;
}
template <typename SS, typename D> static std::vector<Route<S, D>> sb_to_itself(int i, Ch& from, Ch& to) {
    std::vector<Route<S, D>> v; int n = 0; from = to = sb_dynamic<SS>(i).second;
#define X(csx, nm) if (n++ == i) { add_functions<D>(v, "find_transcoder(static " nm ", static " nm ")", strf::find_transcoder(strf::csx<SS>, strf::csx<D>), true); \
        if constexpr (std::is_same<SS, D>::value) add_functions<D>(v, "static " nm ".sanitizer()", strf::csx<SS>.sanitizer(), true); }
    TC_ALL_SB(X)
#undef X
    return v;
}
#ifdef USER_CS
template <typename A, typename F> static void static_mine(int i, F&& f) {
    using ucs::Which; using ucs::sized; constexpr std::size_t n = sizeof(A);
    if (i == 0) f(strf::static_charset<A, sized(Which::v1, n)>{}); else if (i == 1) f(strf::static_charset<A, sized(Which::v2, n)>{}); else f(strf::static_charset<A, sized(Which::v3, n)>{});
}
// static charsets of the user's: with UTF, with one another, with their dynamic forms
template <typename SS, typename D> static std::vector<Route<S, D>> user_functions(Rng& g, Ch& from, Ch& to) {
    std::vector<Route<S, D>> v; unsigned how = (unsigned)g.below(4); const int a = (int)g.below(3), b = (int)g.below(3);
    auto both = [&](auto s, auto d, const char* n) { from = ucs::ch_of<SS>(s.id()); to = ucs::ch_of<D>(d.id()); bool ok = ucs::offered<SS, D>(from, to) || (from.kind != Kind::user && to.kind != Kind::user);
        std::string w = std::string("find_transcoder(") + n + ") " + from.name + " " + to.name;
        // between char types of one size, the same static charset is the static transcoder
        ok = ok || (how == 2 && from.id == to.id);
        add_functions<D>(v, w, strf::find_transcoder(s, d), ok); add_pair_routes<S, D>(v, n, s, d); };
    auto from_mine = [&](auto&& f) { if constexpr (!std::is_same<SS, char32_t>::value) static_mine<SS>(a, f); else f(strf::utf<char32_t>); };
    auto to_mine = [&](auto&& f) { if constexpr (!std::is_same<D, char32_t>::value) static_mine<D>(b, f); else f(strf::utf<char32_t>); };
    switch (how) {
        case 0: from_mine([&](auto s) { both(s, strf::utf<D>, "static user, static utf"); }); break;
        case 1: to_mine([&](auto d) { both(strf::utf<SS>, d, "static utf, static user"); }); break;
        case 2: from_mine([&](auto s) { to_mine([&](auto d) { both(s, d, "static user, static user"); }); }); break;
        default: from_mine([&](auto s) { if (g.coin()) both(s, strf::utf<D>.to_dynamic(), "static user, dynamic utf"); else if constexpr (!std::is_same<D, char32_t>::value) both(s, user_dynamic<D>(g).first, "static user, dynamic user"); }); break;
    }
    vh::event("static user charsets");
    return v;
}
#endif
template <typename SS, typename D> static std::vector<Route<S, D>> static_functions(Rng& g, Ch& from, Ch& to) {
    int i = (int)g.below(sb_count); auto k = g.below(3);
    if constexpr (sizeof(SS) == 1 && sizeof(D) == 1) if (k == 2) return sb_to_itself<SS, D>(i, from, to);
    if constexpr (sizeof(SS) == 1) if (sizeof(D) != 1 || k == 1) return from_static_sb<SS, D>(i, from, to);
    if constexpr (sizeof(D) == 1) return to_static_sb<SS, D>(i, from, to);
    return {};
}
template <typename SS, typename D, typename A, typename B> static void same_single_byte(Rng& g, A& a, B& b) { if constexpr (sizeof(SS) == 1 && sizeof(D) == 1) if (g.chance(1, 5)) { int i = (int)g.below(sb_count); a = sb_dynamic<SS>(i); b = sb_dynamic<D>(i); } }
template <typename D> static std::vector<Route<S, D>> pick_routes(Rng& g, Ch& from, Ch& to, bool utf) {
#ifdef USER_CS
    if (!utf && g.coin()) { auto v = user_functions<S, D>(g, from, to); if (v.size()) return v; }
#endif
    if (!utf && g.chance(1, 3) && (sizeof(S) == 1 || sizeof(D) == 1)) { auto v = static_functions<S, D>(g, from, to); if (v.size()) { vh::event("static single-byte"); return v; } }
    auto a = utf ? std::make_pair(strf::utf<S>.to_dynamic(), utf_ch<S>()) : any_dynamic<S>(g); auto b = any_dynamic<D>(g); from = a.second; to = b.second;
    if (!utf) same_single_byte<S, D>(g, a, b); from = a.second; to = b.second;
    bool found = strf::find_transcoder(a.first, b.first).transcode_func() != nullptr, should = supported(from, to);
#ifdef USER_CS
    if (from.kind == Kind::user || to.kind == Kind::user) should = ucs::offered<S, D>(from, to);
#endif
    if (found != should) vh::violation("find_transcoder", vh::fmt("dynamic %s(%zu) -> %s(%zu)", from.name, sizeof(S), to.name, sizeof(D)) + (found ? " found" : " not found"));
    vh::event(found ? "found" : "null-transcoder");
    { // ids nobody has
        auto odd = (strf::charset_id)g.next(); using T = strf::tag<D>;
        if (odd > (strf::charset_id)1000) { if constexpr (!std::is_same<D, char32_t>::value) { if (a.first.find_transcoder_to(T{}, odd).transcode_func() != nullptr) vh::violation("find_transcoder", vh::fmt("%s found one to charset id %u", from.name, (unsigned)odd)); } } }
    auto v = routes<S, D>("", a.first, b.first);
    // what the charsets themselves offer: right, or null
    auto member = [&](const char* n, auto t) { bool has_it = t.transcode_func() != nullptr; vh::event(has_it ? "member found" : "member null");
        if (has_it && !should) vh::violation("find_transcoder", vh::fmt("%s %s(%zu) -> %s(%zu)", n, from.name, sizeof(S), to.name, sizeof(D)) + " found");
        if (!has_it && from.kind != Kind::sb && to.kind != Kind::sb && from.kind != Kind::user && to.kind != Kind::user) vh::violation("find_transcoder", vh::fmt("%s %s(%zu) -> %s(%zu)", n, from.name, sizeof(S), to.name, sizeof(D)) + " not found");
        if (has_it) add_functions<D>(v, n, t, true); };
    if (g.chance(1, 3)) {
        if constexpr (!std::is_same<D, char32_t>::value) member("find_transcoder_to()", a.first.find_transcoder_to(strf::tag<D>{}, b.first.id()));
        if constexpr (!std::is_same<S, char32_t>::value) member("find_transcoder_from()", b.first.find_transcoder_from(strf::tag<S>{}, a.first.id()));
        if (from.kind != Kind::sb && from.kind != Kind::user) member("static find_transcoder_to()", strf::utf<S>.find_transcoder_to(strf::tag<D>{}, b.first.id()));
        if (to.kind != Kind::sb && to.kind != Kind::user) member("static find_transcoder_from()", strf::utf<D>.find_transcoder_from(strf::tag<S>{}, a.first.id()));
    }
    if (from.kind != Kind::sb && to.kind != Kind::sb && from.kind != Kind::user && to.kind != Kind::user) { auto w = static_routes<S, D>("", strf::utf<S>, strf::utf<D>); v.insert(v.end(), w.begin(), w.end()); }
    return v;
}
template <typename D> static void one(Rng& g, const std::basic_string<S>* text = nullptr) {
    Ch from, to; auto v = pick_routes<D>(g, from, to, text);
    Fl f = gen_flags(g); bool lax = has_flag(f, Fl::lax_surrogate_policy);
    std::size_t n = g.chance(1, 6) ? g.below(3) : g.chance(1, 4) ? g.range(12, 90) : g.below(20);
    auto t = text ? *text : gen_src<S>(g, from, n, g.chance(2, 3));
    bool valid = true; for (auto& x : decode(from, t.data(), t.size(), lax)) valid = valid && x.ok;
    Block<S> src(t.data(), t.size(), g.below(4)); const S *b = src.begin(), *e = src.end();
    auto full = expect<D>(from, to, b, src.n, f, PTRDIFF_MAX / 4); std::ptrdiff_t need = (std::ptrdiff_t)full.out.size();
    for (int rep = 0; rep < 3; ++rep) {
        const Route<S, D>* rp; int tries = 0; do { rp = &g.pick(v); if (++tries > 200) return; } while (rp->unsafe && !valid);
        const auto& r = *rp; vh::event(r.unsafe ? "unsafe" : "safe"); if (r.two_stage) vh::event("two-stage");
        // sizes
        for (int i = 0; i < 6; ++i) {
            std::ptrdiff_t lim = i == 0 ? need : i == 1 ? PTRDIFF_MAX / 2 : i == 2 && need ? need - 1 : i == 3 ? 0 : (std::ptrdiff_t)g.below((std::uint64_t)need + 3);
            auto x = expect<D>(from, to, b, src.n, f, lim); auto z = r.size(b, e, lim, f);
            auto same = [&](const Exp<D>& y) { return z.why == y.why && z.src == b + y.at && z.n == (std::ptrdiff_t)y.out.size(); };
            vh::event("sizes"); if (x.why != Why::completed) vh::event("stopped sizes");
            if (same(x)) continue;
            bool quirk = from.kind == Kind::u32 && to.kind == Kind::sb && !r.unsafe && same(expect<D>(from, to, b, src.n, f, lim, true));
            vh::violation(quirk ? "utf32-to-single-byte-takes-E000-FFFF-for-surrogates" : "size", describe(r, from, to, b, src.n, f, lim) + vh::fmt(" : %s src_ptr %+td size %td expected %s src_ptr %+zu size %zu", why_name(z.why), z.src - b, z.n, why_name(x.why), x.at, x.out.size()));
        }
        // the same into a buffer
        judge<S, D>(r, from, to, b, src.n, f, need + (g.coin() ? 0 : (std::ptrdiff_t)g.below(5)));
        // into a destination, good or going bad
        if (!r.to_dst) continue;
        long bad = g.chance(1, 3) ? (long)g.below(3) : -1; TinyDst<D> dst(g.next(), g.chance(1, 4) ? g.below(70) : g.below(8), (unsigned)g.below(3) * 10, bad);
        Rec rec; auto z = r.to_dst(b, e, dst, &rec, f); bool good = dst.good(); auto got = dst.finish();
        auto what = [&] { return describe(r, from, to, b, src.n, f, -1) + (good ? " to a destination" : " to a destination that went bad"); };
        auto x = good ? full : expect<D>(from, to, b, src.n, f, (std::ptrdiff_t)got.size());
        auto same = [&](const Exp<D>& y) { return z.why == y.why && z.src == b + y.at && z.n == (std::ptrdiff_t)y.out.size() && got == y.out; };
        vh::event(good ? "destination" : "destination going bad"); if (dst.recycles) vh::event("recycled", dst.recycles);
        if (!same(x)) {
            auto q = expect<D>(from, to, b, src.n, f, good ? PTRDIFF_MAX / 4 : (std::ptrdiff_t)got.size(), true);
            bool quirk = from.kind == Kind::u32 && to.kind == Kind::sb && !r.unsafe && same(q);
            vh::violation(quirk ? "utf32-to-single-byte-takes-E000-FFFF-for-surrogates" : "destination", what() + vh::fmt(" : %s src_ptr %+td wrote %td ", why_name(z.why), z.src - b, z.n) + vh::show(got, 300) + vh::fmt(" expected %s src_ptr %+zu wrote %zu ", why_name(x.why), x.at, x.out.size()) + vh::show(x.out, 300));
        } else if (z.why == Why::completed) judge_notified(rec, decode(from, b, src.n, lax), from, to, b, r.unsafe, what());
        // a destination that is bad from the start is not touched
        if (g.chance(1, 8)) { TinyDst<D> dead(g.next(), 0, 0, 0); dead.recycle(); if (!dead.good()) { D* p = dead.buffer_ptr(); auto y = r.to_dst(b, e, dead, nullptr, f); if (y.n != 0 || y.src != b || dead.buffer_ptr() != p || y.why != Why::insufficient_output_space) vh::violation("bad-destination", what() + vh::fmt(" : %s src_ptr %+td wrote %td", why_name(y.why), y.src - b, y.n)); vh::event("bad from the start"); } }
    }
    vh::nontrivial(vh::hash_of(t, full.out, std::string(from.name) + to.name + fl_name(f)));
    if (vh::want_sample()) vh::sample(describe(v[0], from, to, b, src.n, f, need));
}
static void run() {
    std::string c = cname<S>::v;
    // every sequence of up to 3 (quick) or 4 (thorough) units of all classes, from UTF
    static const Sequences<S> seq(4); const std::uint64_t per = 8;
    vh::section(("sequences-" + c).c_str(), (seq.up_to(3) + per - 1) / per, (seq.up_to(4) + per - 1) / per, [&](Rng& g, std::uint64_t id) {
        for (std::uint64_t i = id * per; i < id * per + per && i < seq.up_to(4); ++i) { auto t = seq.get(i); vh::event("representative sequences");
            switch (g.below(8)) { case 0: case 1: one<char>(g, &t); break; case 2: one<char8_t>(g, &t); break; case 3: case 4: one<char16_t>(g, &t); break; case 5: case 6: one<char32_t>(g, &t); break; default: one<wchar_t>(g, &t); } } });
    vh::section(("to-char-" + c).c_str(), 2500, 500000, [](Rng& g, std::uint64_t) { one<char>(g); });
    vh::section(("to-char8-" + c).c_str(), 1000, 250000, [](Rng& g, std::uint64_t) { one<char8_t>(g); });
    vh::section(("to-char16-" + c).c_str(), 1500, 350000, [](Rng& g, std::uint64_t) { one<char16_t>(g); });
    vh::section(("to-char32-" + c).c_str(), 1500, 350000, [](Rng& g, std::uint64_t) { one<char32_t>(g); });
    vh::section(("to-wchar-" + c).c_str(), 1000, 250000, [](Rng& g, std::uint64_t) { one<wchar_t>(g); });
}
VH_MAIN(run)
