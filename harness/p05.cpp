// P05: reserve policies and premeasurements.
#include "jobs.hpp"
#ifndef CH
#define CH char
#endif
using namespace gen;
using C = CH;
using S = std::basic_string<C>;

template <typename D> std::size_t cps(const std::basic_string<D>& s) {
    std::size_t n = 0;
    for (auto c : s) {
        auto u = (char32_t)c;
        if (sizeof(D) == 1 ? ((u & 0xC0) != 0x80) : sizeof(D) == 2 ? ((u & 0xFC00) != 0xDC00) : true) ++n;
    }
    return n;
}
struct Log { long plain = 0, sized = 0; std::size_t size = 0; unsigned long recycles = 0; bool outside = false; };

// Two different destination types, as the requirements allow; the sized one hands
// out one exact-size heap block of the requested size.
template <bool Sized> class RecDst final : public strf::destination<C> {
    Log* log_; C* blk_; std::size_t cap_; S out_;
    void take() {
        auto* p = this->buffer_ptr();
        if (p < blk_ || p > blk_ + cap_) { log_->outside = true; p = blk_; }
        out_.append(blk_, p);
        this->set_buffer_ptr(blk_);
    }
    RecDst(C* b, std::size_t n, Log* l) : strf::destination<C>(b, n), log_(l), blk_(b), cap_(n) {}
public:
    RecDst(std::size_t n, Log* l) : RecDst(new C[n ? n : 1], n, l) {}
    ~RecDst() override { delete[] blk_; }
    void recycle() override {
        take(); ++log_->recycles;
        delete[] blk_; cap_ = strf::min_destination_buffer_size;
        blk_ = new C[cap_];
        this->set_buffer_ptr(blk_); this->set_buffer_end(blk_ + cap_);
    }
    S finish() { take(); return out_; }
};
struct Creator {
    using char_type = C;
    using destination_type = RecDst<false>;
    using sized_destination_type = RecDst<true>;
    Log* log;
    struct P { std::size_t n; Log* l; operator RecDst<false>() const = delete; };
    RecDst<false> create() const { ++log->plain; return RecDst<false>(strf::min_destination_buffer_size, log); }
    RecDst<true> create(std::size_t n) const { ++log->sized; log->size = n; return RecDst<true>(n, log); }
};
static auto printing(Log& l) { return strf::printing_syntax<Creator>(Creator{&l}); }

template <typename... A> static S reference(const A&... a) { TinyDst<C> d(1, 8192, 0); strf::to(d).with(a...); return d.finish(); }

static S gen_tr(Rng& g, std::size_t nargs) {
    S t;
    for (unsigned n = (unsigned)g.below(7); n; --n) {
        switch (g.below(8)) {
            case 0: t += ascii<C>("{{"); break;
            case 1: t += ascii<C>("{-x}"); break;
            case 2: t += ascii<C>("{}"); break;
            case 3: t += ascii<C>("{name}"); break;
            case 4: case 5: t += ascii<C>("{" + std::to_string(g.below(nargs + 2)) + "}"); break;
            case 6: t += enc<C>(gen_text(g, g.below(70))); break;
            default: t += ascii<C>("{"); t += ascii<C>(std::to_string(g.below(nargs + 1))); break;
        }
    }
    std::replace(t.begin(), t.end(), C(), (C)'0');
    return t;
}

static void one(Rng& g, std::uint64_t) {
    jobs::job<C>(g, [&](const auto& pack, const auto&... a) {
        const unsigned k = jobs::last_job;
        auto what = [&](const char* s) { return vh::fmt("job %u, %s: ", k, s); };
        TinyDst<C> ref(1, 8192, 0);
        strf::to(ref).with(pack)(a...);
        const S want = ref.finish();
        const std::size_t nargs = sizeof...(a);
        // --- reserve policies, all syntaxes
        auto judge = [&](const S& got, const S& exp, Log& l, int mode, const char* name, std::size_t given) {
            VH_CHECK(got == exp, "output-differs-with-reserve-policy", what(name) + vh::show(got) + " expected " + vh::show(exp));
            VH_CHECK(!l.outside, "buffer-pointer-outside-buffer", what(name));
            if (mode == 0) VH_CHECK(l.plain == 1 && l.sized == 0, "wrong-create", what(name));
            else VH_CHECK(l.plain == 0 && l.sized == 1, "wrong-create", what(name));
            if (mode == 1) VH_CHECK(l.size == given, "reserve-size-not-passed", what(name));
            if (mode == 2) {
                VH_CHECK(l.size >= exp.size(), "precalculated-size-too-small", what(name) + vh::fmt("announced %zu, printed %zu: ", l.size, exp.size()) + vh::show(exp));
                VH_CHECK(l.recycles == 0, "recycle-in-spite-of-reserved-space", what(name) + vh::fmt("announced %zu, printed %zu: ", l.size, exp.size()) + vh::show(exp));
                vh::event("reserve_calc-prints");
                if (l.size == exp.size()) vh::event("exact-precalculations");
            }
        };
        std::size_t r = g.below(want.size() + 20);
        const S nl(1, (C)'\n');
        { Log l; auto s = printing(l).with(pack)(a...); judge(s, want, l, 0, "no_reserve", 0); }
        { Log l; auto s = printing(l).reserve(r).with(pack)(a...); judge(s, want, l, 1, "reserve(n)", r); }
        { Log l; auto s = printing(l).reserve_calc().with(pack)(a...); judge(s, want, l, 2, "reserve_calc", 0); }
        switch (g.below(6)) {
            case 0: { Log l; auto s = printing(l).with(pack).line(a...); judge(s, want + nl, l, 0, "line no_reserve", 0); break; }
            case 1: { Log l; auto s = printing(l).with(pack).reserve(r).line(a...); judge(s, want + nl, l, 1, "line reserve(n)", r); break; }
            case 2: { Log l; auto s = printing(l).with(pack).reserve_calc().line(a...); judge(s, want + nl, l, 2, "line reserve_calc", 0); break; }
            case 3: { Log l; auto s = printing(l).reserve_calc().no_reserve().with(pack)(a...); judge(s, want, l, 0, "reserve_calc.no_reserve", 0); break; }
            case 4: { auto s = strf::to_basic_string<C>.reserve_calc().with(pack)(a...); VH_CHECK(s == want, "to_string-reserve_calc", what("")); break; }
            default: { S s = enc<C>(U"begin"); strf::append(s).reserve(r).with(pack)(a...); VH_CHECK(s == enc<C>(U"begin") + want, "append-reserve", what("")); break; }
        }
#ifndef NO_TR
        {
            S t = gen_tr(g, nargs);
            Log l0; auto exp = printing(l0).with(pack).tr(t, a...); judge(exp, exp, l0, 0, "tr no_reserve", 0);
            switch (g.below(5)) {
                case 0: { Log l; auto s = printing(l).with(pack).reserve(r).tr(t, a...); judge(s, exp, l, 1, "tr reserve(n)", r); break; }
                case 1: case 2: { Log l; auto s = printing(l).with(pack).reserve_calc().tr(t, a...); judge(s, exp, l, 2, "tr reserve_calc", 0); break; }
                case 3: { Log l; auto s = printing(l).with(pack).reserve(r).trline(t, a...); judge(s, exp + nl, l, 1, "trline reserve(n)", r); break; }
                default: { Log l; auto s = printing(l).with(pack).reserve_calc().trline(t, a...); judge(s, exp + nl, l, 2, "trline reserve_calc", 0); break; }
            }
        }
#endif
        // --- measure
        {
            strf::premeasurements<strf::size_presence::yes, strf::width_presence::no> ps;
            strf::measure<C>(&ps, pack, a...);
            VH_CHECK(ps.accumulated_size() >= want.size(), "measured-size-too-small", what("size only") + vh::fmt("%zu, printed %zu: ", ps.accumulated_size(), want.size()) + vh::show(want));
            VH_CHECK(ps.accumulated_ssize() == (std::ptrdiff_t)ps.accumulated_size(), "ssize", what(""));
            auto wpack = strf::pack(pack, strf::width_as_u32len);
            TinyDst<C> wref(1, 8192, 0);
            strf::to(wref).with(wpack)(a...);
            const S wwant = wref.finish();
            const std::size_t n = cps(wwant);
            auto lim = g.chance(1, 3) ? strf::width_max : g.coin() ? strf::width_t((int)g.below(n + 4)) : strf::width_t::from_underlying((std::int32_t)g.below((n + 3) * 65536));
            std::int64_t expect = std::min<std::int64_t>((std::int64_t)n * 65536, lim.underlying_value());
            auto wcheck = [&](strf::width_t w, strf::width_t rem, bool has, const char* name) {
                VH_CHECK(w.underlying_value() == expect, "measured-width", what(name) + vh::fmt("%.4f, text has %zu code points, limit %.4f: ", w.underlying_value() / 65536., n, lim.underlying_value() / 65536.) + vh::show(wwant));
                VH_CHECK(rem.underlying_value() == lim.underlying_value() - expect, "remaining-width", what(name));
                VH_CHECK(has == (lim.underlying_value() > expect), "has-remaining-width", what(name));
            };
            strf::full_premeasurements pf(lim);
            strf::measure<C>(&pf, wpack, a...);
            VH_CHECK(pf.accumulated_size() >= wwant.size(), "measured-size-too-small", what("size and width") + vh::fmt("%zu, printed %zu: ", pf.accumulated_size(), wwant.size()) + vh::show(wwant));
            wcheck(pf.accumulated_width(), pf.remaining_width(), pf.has_remaining_width(), "size and width");
            strf::premeasurements<strf::size_presence::no, strf::width_presence::yes> pw(lim);
            strf::measure<C>(&pw, wpack, a...);
            wcheck(pw.accumulated_width(), pw.remaining_width(), pw.has_remaining_width(), "width only");
            vh::event("measurements", 3); if (expect < (std::int64_t)n * 65536) vh::event("measurements-over-the-limit");
        }
        vh::nontrivial(vh::hash_of(want, k));
        if (vh::want_sample()) vh::sample(vh::fmt("job %u prints %zu units ", k, want.size()) + vh::show(want, 60));
    });
}
// Widths beyond the range of width_t saturate
static void huge(Rng& g, std::uint64_t) {
    long n1 = (long)g.range(0, 45000), n2 = (long)g.range(0, 45000); int n3 = (int)g.range(0, 45000), w = (int)g.range(1, 32767);
    S a((std::size_t)n1, (C)'a'), b((std::size_t)n2, (C)'b');
    long total = n1 + n2 + n3;
    auto pad = [&](long len) { return len < w ? w - len : 0; };
    auto e = [&](long len) { return S((std::size_t)pad(std::min(len, 32767L)), (C)' '); };
    S body = a + b + S((std::size_t)n3, (C)'c');
    bool left = g.coin();
    auto want = [&](const S& s, long len) { return left ? s + e(len) : e(len) + s; };
    auto ck = [&](const S& got, const S& exp, const char* n) {
        VH_CHECK(got == exp, "width-beyond-width_max", vh::fmt("%s: %ld+%ld+%d columns, join width %d: length %zu expected %zu", n, n1, n2, n3, w, got.size(), exp.size()));
    };
    auto al = [&](auto&& j) { strf::alignment_format f; f.width = w; f.alignment = left ? strf::text_alignment::left : strf::text_alignment::right; return std::move(j).set_alignment_format(f); };
    auto p = [&](auto&& wc, const char* name) {
        std::string nm = name;
        ck(strf::to_basic_string<C>.with(wc)(al(strf::fmt(strf::join(a, b, strf::multi((C)'c', n3))))), want(body, total), (nm + " join of strings").c_str());
        int w1 = (int)g.range(1, 32767), w2 = (int)g.range(1, 32767);
        long l1 = std::max(w1, 1), l2 = std::max<long>(w2, std::min(n2, 32767L));
        S i1 = S((std::size_t)w1 - 1, (C)' ') + (C)'7', i2 = b + S((std::size_t)(n2 < w2 ? w2 - n2 : 0), (C)'.');
        ck(strf::to_basic_string<C>.reserve_calc().with(wc)(al(strf::fmt(strf::join(strf::right(7, w1), strf::left(b, w2, U'.'))))), want(i1 + i2, l1 + l2), (nm + " join of aligned").c_str());
        S t = ascii<C>("{}{0}"); long lt = 2 * n1;
        ck(strf::to_basic_string<C>.with(wc)(al(strf::fmt(strf::join(strf::tr(t, a))))), want(a + a, lt), (nm + " join of tr").c_str());
        ck(strf::to_basic_string<C>.reserve_calc().with(wc)(al(strf::fmt(strf::join(strf::join(a, (C)'x') < w1, b)))), want(a + (C)'x' + S((std::size_t)(n1 + 1 < w1 ? w1 - n1 - 1 : 0), (C)' ') + b, std::max<long>(n1 + 1, w1) + n2), (nm + " join of joins").c_str());
        strf::full_premeasurements pre;
        strf::measure<C>(&pre, strf::pack(wc), a, strf::multi((C)'c', n3), b);
        VH_CHECK(total > 32767 ? pre.accumulated_width() >= 32767 : pre.accumulated_width() == (int)total, "width-beyond-width_max", vh::fmt("%s measure of %ld columns: %f", name, total, pre.accumulated_width().underlying_value() / 65536.));
        VH_CHECK(pre.accumulated_size() == (std::size_t)total, "measured-size", vh::fmt("%zu of %ld", pre.accumulated_size(), total));
    };
    switch (g.below(3)) {
        case 0: p(strf::width_as_u32len, "width_as_u32len"); break;
        case 1: p(strf::fast_width, "fast_width"); break;
        default: p(strf::width_as_fast_u32len, "width_as_fast_u32len"); break;
    }
    if (total > 32767) vh::event("widths-beyond-width_max");
    vh::nontrivial(vh::hash_of(n1, n2, n3, w));
}
// The accumulators by themselves, against the formulas of the documentation
template <typename W> static void width_ops(Rng& g, const char* name, bool active, W acc, std::int64_t limit) {
    const std::int64_t top = 0x7FFFFFFF;
    std::int64_t width = 0;
    for (unsigned n = 1 + (unsigned)g.below(12); n; --n) {
        std::int64_t w = g.chance(1, 4) ? (std::int64_t)g.below((std::uint64_t)top + 1) : g.chance(1, 4) ? limit - width + g.range(-1, 1) : (std::int64_t)g.below(8) * 65536 + (std::int64_t)(g.coin() ? g.below(65536) : 0);
        if (w < 0 || w > top) w = 0;
        const bool neg = g.chance(1, 8);
        const auto a = strf::width_t::from_underlying((std::int32_t)(neg ? -w : w));
        const char* op = "checked_add_width";
        switch (g.below(8)) {
            case 0: op = "saturate_width"; acc.saturate_width(); width = limit; break;
            case 1: case 2: case 3: op = "add_width"; if (neg) continue; acc.add_width(a); width = std::min(top, width + w); break;
            default: acc.checked_add_width(a); if (!neg && w > 0 && width < limit) width = w >= limit - width ? limit : width + w;
        }
        if (g.chance(1, 6)) { W copy(acc); acc = std::move(copy); }
        const std::int64_t wa = active ? std::min(width, limit) : 0, wr = active && width < limit ? limit - width : 0;
        auto say = [&] { return vh::fmt("%s, after %s(%lld), limit %lld, width %lld: accumulated %d remaining %d", name, op, (long long)(neg ? -w : w), (long long)limit, (long long)width, (int)acc.accumulated_width().underlying_value(), (int)acc.remaining_width().underlying_value()); };
        VH_CHECK(acc.accumulated_width().underlying_value() == wa, "accumulator:accumulated_width", say());
        VH_CHECK(acc.remaining_width().underlying_value() == wr, "accumulator:remaining_width", say());
        VH_CHECK(acc.has_remaining_width() == (active && width < limit), "accumulator:has_remaining_width", say());
        const std::int64_t q = g.chance(1, 2) ? std::max<std::int64_t>(0, std::min<std::int64_t>(top, wr + g.range(-1, 1))) : (std::int64_t)g.below((std::uint64_t)top + 1);
        VH_CHECK(acc.remaining_width_greater_than(strf::width_t::from_underlying((std::int32_t)q)) == (active && width + q < limit), "accumulator:remaining_width_greater_than", say() + vh::fmt(" for %lld", (long long)q));
        vh::event("accumulator-operations");
    }
}
template <typename P> static void size_ops(Rng& g, const char* name, bool active, P acc, std::uint64_t start) {
    std::uint64_t size = start;
    for (unsigned n = (unsigned)g.below(10); n; --n) {
        switch (g.below(7)) {
            case 0: { auto v = (unsigned char)g.next(); acc.add_size(v); size += v; break; }
            case 1: { auto v = (signed char)g.next(); acc.add_size(v); size += v > 0 ? (std::uint64_t)v : 0; break; }
            case 2: { auto v = (int)g.next(); acc.add_size(v); size += v > 0 ? (std::uint64_t)v : 0; break; }
            case 3: { auto v = (unsigned)g.next(); acc.add_size(v); size += v; break; }
            case 4: { auto v = (std::int64_t)(g.next() << 8) >> 8; acc.add_size(v); size += v > 0 ? (std::uint64_t)v : 0; break; }
            case 5: { auto v = g.next() >> 8; acc.add_size(v); size += v; break; }
            default: { auto v = (short)g.range(-3, 3); acc.add_size(v); size += v > 0 ? (std::uint64_t)v : 0; break; }
        }
        if (g.chance(1, 6)) { P copy(acc); acc = std::move(copy); }
    }
    const std::uint64_t want = active ? size : 0;
    VH_CHECK(acc.accumulated_size() == want && (std::uint64_t)acc.accumulated_ssize() == want, "accumulator:size", vh::fmt("%s: %zu (%td), expected %llu", name, acc.accumulated_size(), acc.accumulated_ssize(), (unsigned long long)want));
    vh::event("accumulator-operations");
}
static void accumulators(Rng& g, std::uint64_t) {
    using SP = strf::size_presence; using WP = strf::width_presence;
    const std::int64_t top = 0x7FFFFFFF;
    std::int64_t l = g.chance(1, 4) ? top : g.chance(1, 3) ? (std::int64_t)g.below((std::uint64_t)top + 1) : (std::int64_t)g.below(20) * 65536 + (std::int64_t)(g.coin() ? g.below(65536) : 0);
    const auto lim = strf::width_t::from_underlying((std::int32_t)l);
    width_ops(g, "width_accumulator", true, strf::width_accumulator<true>(lim), l);
    width_ops(g, "width_accumulator without limit", true, strf::width_accumulator<true>(), top);
    width_ops(g, "full_premeasurements", true, strf::full_premeasurements(lim), l);
    width_ops(g, "premeasurements of width", true, strf::premeasurements<SP::no, WP::yes>(lim), l);
    width_ops(g, "premeasurements without limit", true, strf::full_premeasurements(), top);
    width_ops(g, "premeasurements of size", false, strf::premeasurements<SP::yes, WP::no>(), l);
    width_ops(g, "no_premeasurements", false, strf::no_premeasurements(), l);
    width_ops(g, "width_accumulator<false>", false, strf::width_accumulator<false>(), l);
    {   // a limit below zero leaves no room
        const strf::width_accumulator<true> a(strf::width_t::from_underlying((std::int32_t)-(std::int64_t)g.below((std::uint64_t)top)));
        VH_CHECK(a.remaining_width() == 0 && !strf::width_accumulator<true>(a).has_remaining_width() && !a.remaining_width_greater_than(0), "accumulator:negative-limit", "");
    }
    const auto i = (std::int64_t)(g.next() << 8) >> 8; const int j = (int)g.range(-3, 3); const auto k = (unsigned char)g.next();
    size_ops(g, "size_accumulator", true, strf::size_accumulator<true>(), 0);
    size_ops(g, "size_accumulator(int64)", true, strf::size_accumulator<true>(i), i > 0 ? (std::uint64_t)i : 0);
    size_ops(g, "size_accumulator(int)", true, strf::size_accumulator<true>(j), j > 0 ? (std::uint64_t)j : 0);
    size_ops(g, "size_accumulator(unsigned char)", true, strf::size_accumulator<true>(k), k);
    size_ops(g, "size_accumulator<false>", false, strf::size_accumulator<false>(), 0);
    size_ops(g, "full_premeasurements", true, strf::full_premeasurements(), 0);
    size_ops(g, "premeasurements of size", true, strf::premeasurements<SP::yes, WP::no>(), 0);
    size_ops(g, "premeasurements of width", false, strf::premeasurements<SP::no, WP::yes>(), 0);
    size_ops(g, "no_premeasurements", false, strf::no_premeasurements(), 0);
    vh::nontrivial(vh::hash_of(l, i, j));
}
static void run() {
    const std::string n = cname<C>::v;
    vh::section(("reserve-and-measure-" + n).c_str(), 5000, 500000, one);
#ifdef HUGE_W
    vh::section(("huge-widths-" + n).c_str(), 60, 4000, huge);
    vh::section(("accumulators-" + n).c_str(), 5000, 1000000, accumulators);
#endif
}
VH_MAIN(run)
