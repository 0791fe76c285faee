// P03: string destinations: histories against a model, print jobs, failing allocators.
#ifndef JOBS
#define JOBS 0x3FFFF
#endif
#include "jobs.hpp"
#include <memory>
#include <new>
using namespace gen;
#ifndef CH
#define CH char
#endif
using C = CH;
using S = std::basic_string<C>;

// Allocator that accounts for every block and fails on demand.
struct Acc { long live = 0, allocs = 0; long fail_at = -1; long fails = 0; };
static Acc acc;
template <typename T> struct TrackAlloc {
    using value_type = T;
    TrackAlloc() = default;
    template <typename U> TrackAlloc(const TrackAlloc<U>&) {}
    T* allocate(std::size_t n) {
        if (acc.fail_at >= 0 && acc.allocs >= acc.fail_at) { ++acc.fails; throw std::bad_alloc(); }
        ++acc.allocs; ++acc.live;
        return static_cast<T*>(::operator new(n * sizeof(T)));
    }
    void deallocate(T* p, std::size_t) { --acc.live; ::operator delete(p); }
    template <typename U> bool operator==(const TrackAlloc<U>&) const { return true; }
    template <typename U> bool operator!=(const TrackAlloc<U>&) const { return false; }
};
struct MyTraits : std::char_traits<C> {};
using TS = std::basic_string<C, MyTraits, TrackAlloc<C>>;
inline S conv(const TS& s) { return S(s.data(), s.size()); }
inline S conv(const S& s) { return s; }

// --- operation histories on a destination object; `model` receives what must arrive
template <typename D> void ops(Rng& g, D& d, S& model, std::string& log, unsigned n) {
    for (unsigned k = 0; k < n; ++k) {
        C c = (C)g.range('a', 'z');
        switch (g.below(7)) {
        case 0: case 1: { long m = g.chance(1, 10) ? -(long)g.below(3) : g.coin() ? (long)d.buffer_space() + (long)g.range(-2, 2) : (long)gen_len(g);
            if (g.chance(1, 20)) m = 1000 + (long)g.below(3000);
            S s((std::size_t)std::max(0l, m), c);
            std::unique_ptr<C[]> src(new C[s.size()]); std::copy(s.begin(), s.end(), src.get());
            log += vh::fmt("write(%ld) ", m); d.write(src.get(), m); model += s; break; }
        case 2: log += "put "; strf::put(d, c); model += c; break;
        case 3: { std::size_t r = g.below(65); log += vh::fmt("ensure(%zu)", r); d.ensure(r);
            if (d.buffer_space() < r) { vh::violation("ensure", log); return; }
            std::size_t m = g.below(r + 1); log += vh::fmt("+%zu ", m);
            std::fill_n(d.buffer_ptr(), m, c); d.advance(m); model += S(m, c); break; }
        case 4: { std::size_t m = g.below(d.buffer_space() + 1); log += vh::fmt("advance_to(+%zu) ", m);
            std::fill_n(d.buffer_ptr(), m, c); d.advance_to(d.buffer_ptr() + m); model += S(m, c); break; }
        case 5: log += "recycle "; d.recycle(); if (d.buffer_space() < 64) vh::violation("recycle-space", log); break;
        default: { int m = (int)g.below(150); log += vh::fmt("multi(%d) ", m); strf::to(static_cast<strf::destination<C>&>(d))(strf::multi(c, m)); model += S((std::size_t)m, c); }
        }
        if (!d.good()) { vh::violation("not-good", log); return; }
        vh::event("operations");
    }
}
template <typename ST> void history(Rng& g) {
    using M = strf::basic_string_maker<C, typename ST::traits_type, typename ST::allocator_type>;
    using Z = strf::basic_sized_string_maker<C, typename ST::traits_type, typename ST::allocator_type>;
    using A = strf::basic_string_appender<C, typename ST::traits_type, typename ST::allocator_type>;
    std::string log; S model;
    acc = Acc();
    {
        ST got;
        unsigned kind = (unsigned)g.below(4), n = (unsigned)g.below(9);
        if (kind == 0) { M d; log = "maker: "; ops(g, d, model, log, n); if (g.chance(1, 8)) return; got = d.finish(); if (d.good()) vh::violation("good-after-finish", log); }
        else if (kind == 1) { std::size_t z = gen_len(g); Z d(z); log = vh::fmt("sized_maker(%zu): ", z); ops(g, d, model, log, n); if (g.chance(1, 8)) return; got = d.finish(); }
        else { // the appender delivers what it holds when destroyed, too
            S pre((std::size_t)g.below(100), (C)'P'); got.assign(pre.data(), pre.size());
            std::size_t res = g.below(200); bool sized = g.coin();
            std::unique_ptr<A> d(sized ? new A(got, res) : new A(got)); log = vh::fmt("appender on %zu%s: ", pre.size(), sized ? " sized" : "");
            ops(g, *d, model, log, n);
            if (g.coin()) { log += "finish "; d->finish(); if (d->good()) vh::violation("good-after-finish", log);
                S x(70, (C)'!'); if (g.coin()) { strf::put(static_cast<strf::destination<C>&>(*d), (C)'!'); d->write(x.data(), x.size()); } }   // no effect any more
            d.reset();
            model = pre + model;
        }
        expect_eq(conv(got), model, "history", log);
        vh::nontrivial(vh::hash_of(log, kind));
        if (vh::want_sample()) vh::sample(log + vh::fmt(" -> %zu chars", model.size()));
    }
    if (acc.live != 0) vh::violation("leak", log);
}
// --- failing allocator: exception propagates, nothing leaks, objects stay usable
static void faults(Rng& g, std::uint64_t) {
    std::uint64_t seed = g.next();
    unsigned kind = (unsigned)g.below(3), n = 1 + (unsigned)g.below(8);
    std::size_t z = gen_len(g); S pre((std::size_t)g.below(100), (C)'P');
    std::string log; long total;
    auto play = [&](long fail_at, S& model, S& got, bool& threw) {
        acc = Acc(); log.clear(); threw = false; model.clear(); got.clear();
        Rng h(seed);
        TS str(pre.data(), pre.size());
        long live0 = acc.live;
        S held = pre;
        if (fail_at >= 0) acc.fail_at = acc.allocs + fail_at;
        long base = acc.allocs;
        try {
            if (kind == 0) { strf::basic_string_maker<C, MyTraits, TrackAlloc<C>> d; ops(h, d, model, log, n); TS s = d.finish(); got = conv(s); }
            else if (kind == 1) { strf::basic_sized_string_maker<C, MyTraits, TrackAlloc<C>> d(z); ops(h, d, model, log, n); TS s = d.finish(); got = conv(s); }
            else {
                strf::basic_string_appender<C, MyTraits, TrackAlloc<C>> d(str);
                try { ops(h, d, model, log, n); d.finish(); }
                catch (const std::bad_alloc&) {
                    if (d.good() && acc.fails) { // still good: must go on as if that piece had been delivered or not, but without harm
                        vh::event("good-after-exception");
                    }
                    acc.fail_at = -1;
                    // what follows must be harmless
                    strf::put(static_cast<strf::destination<C>&>(d), (C)'z'); d.recycle(); S x(200, (C)'z'); d.write(x.data(), x.size());
                    throw;
                }
                got = conv(str);
            }
        } catch (const std::bad_alloc&) { threw = true; }
        if (acc.fails && !threw && kind != 2) vh::violation("exception-swallowed", log);
        long allocs = acc.allocs - base;
        acc.fail_at = -1;
        if (threw && kind == 2) {
            S now = conv(str);
            if (now.compare(0, pre.size(), pre) != 0) vh::violation("appended-string-lost", log);
            str.assign(pre.data(), pre.size()); str.append(5000, (C)'u');       // still usable
            if (str.size() != pre.size() + 5000) vh::violation("string-unusable", log);
            // what was appended before is a prefix of what was printed
            S tail = now.substr(std::min(now.size(), pre.size()));
            if (model.compare(0, tail.size(), tail) != 0) {
                // the piece in flight may be missing from the model: only whole deliveries count
                if (tail.compare(0, model.size(), model) != 0) vh::violation("content-after-exception", log);
            }
        }
        { TS().swap(str); }
        if (acc.live != 0) vh::violation("leak-after-exception", vh::fmt("%ld blocks live: ", acc.live) + log);
        (void)live0;
        return allocs;
    };
    S model, got; bool threw;
    total = play(-1, model, got, threw);
    if (kind == 2) model = pre + model;
    expect_eq(got, model, "history", log);
    for (long f = 0; f < total && f < 8; ++f) { S m2, g2; play(f, m2, g2, threw); vh::event("allocation-failures-injected"); }
    vh::nontrivial(vh::hash_of(log, kind, total));
}
#if JOBS
#if defined(__cpp_char8_t)
template <typename T> struct maker;
#endif
static void printing(Rng& g, std::uint64_t) {
    auto s1 = g.next();
    jobs::job<C>(g, [&](auto&& pack, auto&&... a) {
        Rng h(s1);
        TinyDst<C> ref(1, 66000, 0);
        strf::to(static_cast<strf::destination<C>&>(ref)).with(pack)(a...);
        auto want = ref.finish();
        vh::nontrivial(vh::hash_of(want, jobs::last_job));
        auto what = [&](const char* how) { return vh::fmt("%s of job %u", how, jobs::last_job); };
        S pre(h.below(60), (C)'P');
        acc = Acc();
        {
            auto& mk = strf::to_basic_string<C, MyTraits, TrackAlloc<C>>;
            std::size_t r = h.below(3) == 0 ? 0 : h.below(want.size() * 2 + 3);
            switch (h.below(6)) {
                case 0: expect_eq(conv(mk.with(pack)(a...)), want, "to_basic_string", what("to_basic_string")); break;
                case 1: expect_eq(conv(mk.with(pack).reserve(r)(a...)), want, "to_basic_string", what("to_basic_string.reserve")); break;
                case 2: expect_eq(conv(mk.with(pack).reserve_calc()(a...)), want, "to_basic_string", what("to_basic_string.reserve_calc")); break;
                case 3: { S nl = want; nl += (C)'\n'; expect_eq(conv(mk.with(pack).line(a...)), nl, "to_basic_string", what("to_basic_string.line")); break; }
                default: { TS t(pre.data(), pre.size());
                    switch (h.below(4)) {
                        case 0: strf::append(t).with(pack)(a...); expect_eq(conv(t), pre + want, "append", what("append")); break;
                        case 1: strf::append(t).with(pack).reserve(r)(a...); expect_eq(conv(t), pre + want, "append", what("append.reserve")); break;
                        case 2: strf::append(t).with(pack).reserve_calc()(a...); expect_eq(conv(t), pre + want, "append", what("append.reserve_calc")); break;
                        default: strf::assign(t).with(pack)(a...); expect_eq(conv(t), want, "assign", what("assign")); break;
                    } }
            }
        }
        if (acc.live) vh::violation("leak", what("print"));
        // std::string through the ready-made objects
        auto& std_mk = strf::to_basic_string<C>;
        expect_eq(std_mk.with(pack)(a...), want, "to_basic_string", what("to_string"));
        S t = pre; strf::append(t).with(pack)(a...); expect_eq(t, pre + want, "append", what("append"));
        strf::assign(t).with(pack)(a...); expect_eq(t, want, "assign", what("assign"));
        // allocation failing in the middle of a print
        TS u(pre.data(), pre.size());
        for (long f = 0; f < 3; ++f) {
            acc.fail_at = acc.allocs + f;
            try { auto s = strf::to_basic_string<C, MyTraits, TrackAlloc<C>>.with(pack)(a...); acc.fail_at = -1; expect_eq(conv(s), want, "to_basic_string", what("to_basic_string")); }
            catch (const std::bad_alloc&) { vh::event("prints-interrupted-by-bad_alloc"); }
            acc.fail_at = acc.allocs + f;
            try { strf::append(u).with(pack)(a...); } catch (const std::bad_alloc&) { vh::event("prints-interrupted-by-bad_alloc"); }
            acc.fail_at = -1;
            if (conv(u).compare(0, pre.size(), pre) != 0) vh::violation("appended-string-lost", what("append"));
            u.assign(pre.data(), pre.size());
        }
        TS().swap(u);
        if (acc.live) vh::violation("leak-after-exception", what("print"));
    });
}
#endif
static void run() {
    std::string n = cname<C>::v;
    vh::section(("history-std-" + n).c_str(), 20000, 2000000, [](Rng& g, std::uint64_t) { history<S>(g); });
    vh::section(("history-custom-" + n).c_str(), 20000, 2000000, [](Rng& g, std::uint64_t) { history<TS>(g); });
    vh::section(("allocation-faults-" + n).c_str(), 10000, 1000000, faults);
#if JOBS
    vh::section(("printing-" + n).c_str(), 2500, 300000, printing);
#endif
}
VH_MAIN(run)
