// P02: the same print call into destinations with hostile buffers.
#include "jobs.hpp"
using namespace gen;
#ifndef CH
#define CH char
#endif
using C = CH;

// A destination with one big buffer: the reference run.
struct Big final : strf::destination<C> {
    std::vector<C> mem; unsigned recycles = 0;
    explicit Big(std::size_t n) : strf::destination<C>((C*)nullptr, (C*)nullptr), mem(n) { set_buffer_ptr(mem.data()); set_buffer_end(mem.data() + n); }
    void recycle() override { ++recycles; auto o = (std::size_t)(buffer_ptr() - mem.data()); mem.resize(mem.size() * 2 + 100); set_buffer_ptr(mem.data() + o); set_buffer_end(mem.data() + mem.size()); }
    std::basic_string<C> text() { return { mem.data(), (std::size_t)(buffer_ptr() - mem.data()) }; }
};
// do_write overridden: pieces handed over whole, as FILE/streambuf writers do
struct Sink final : strf::destination<C> {
    C buf[64]; std::basic_string<C> out;
    Sink() : strf::destination<C>(buf, (std::size_t)64) {}
    void recycle() override { if (good()) out.append(buf, buffer_ptr()); set_buffer_ptr(buf); }
    void do_write(const C* p, std::size_t n) override { recycle(); if (good()) out.append(p, n); }
};
static void one(Rng& g, std::uint64_t) {
    auto s1 = g.next();
    jobs::job<C>(g, [&](auto&& pack, auto&&... a) {
        Rng h(s1);
        Big big(70000);
        strf::to(static_cast<strf::destination<C>&>(big)).with(pack)(a...);
        auto want = big.text();
        vh::nontrivial(vh::hash_of(want, jobs::last_job));
        auto tag = [&] { return vh::fmt("job %u", jobs::last_job); };
        for (unsigned r = 0; r < 3; ++r) {
            std::size_t first = r == 0 ? 0 : r == 1 ? h.below(66) : want.size() + h.below(3) - (want.size() ? 1 : 0);
            unsigned slack = r == 2 ? 1 : (unsigned)h.below(40);
            TinyDst<C> d(h.next(), first, slack);
            strf::to(static_cast<strf::destination<C>&>(d)).with(pack)(a...);
            auto got = d.finish();
            vh::event("buffers-used", d.recycles + 1);
            if (d.recycles) vh::event("prints-split-over-buffers");
            if (got != want) vh::violation("split-output", tag() + vh::fmt(" with first buffer of %zu: ", first) + vh::show(got, 300) + " instead of " + vh::show(want, 300));
        }
        { Sink s; strf::to(static_cast<strf::destination<C>&>(s)).with(pack)(a...); s.recycle();
          if (s.out != want) vh::violation("sink-output", tag() + ": " + vh::show(s.out, 300) + " instead of " + vh::show(want, 300)); }
        // a destination that goes bad: a prefix, and no harm
        for (unsigned r = 0; r < 2; ++r) {
            TinyDst<C> d(h.next(), h.below(66), (unsigned)h.below(10), r == 0 ? 0 : (long)h.below(4));
            strf::to(static_cast<strf::destination<C>&>(d)).with(pack)(a...);
            auto got = d.finish();
            if (!d.good()) vh::event("prints-into-failed-destination");
            if (want.compare(0, got.size(), got) != 0) vh::violation("prefix-on-failure", tag() + ": " + vh::show(got, 300) + " is no prefix of " + vh::show(want, 300));
        }
    });
}
static void run() { vh::section((std::string("hostile-buffers-") + cname<C>::v).c_str(), 9000, 900000, one); }
VH_MAIN(run)
