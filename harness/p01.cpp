// P01: array destinations. Histories of operations against a model, and print jobs
// into arrays of every size around the length of the output.
#ifndef JOBS
#define JOBS 0x3FFFF
#endif
#include "jobs.hpp"
#include <memory>
using namespace gen;
#ifndef CH
#define CH char
#endif
using C = CH;
using S = std::basic_string<C>;

template <typename D> void check_out(const D& d, const C* arr, std::size_t cap, const char* op, bool good) {
    if (d.good() != good) vh::violation("good", vh::fmt("good() is %d after %s, expected %d", d.good(), op, good));
    const C* p = d.buffer_ptr(); const C* e = d.buffer_end();
    if (p > e) { vh::violation("pointers", vh::fmt("buffer_ptr() %td units behind buffer_end() after %s", p - e, op)); return; }
    if (!good) { // nothing of the array may be handed out any more
        auto in = [&](const C* q) { return std::less_equal<const C*>()(arr, q) && std::less<const C*>()(q, arr + cap); };
        if (in(p) && p != e) vh::violation("array-handed-out-after-overflow", vh::fmt("after %s buffer_ptr() is %td units into the array", op, p - arr));
    } else if (p < arr || e > arr + cap) vh::violation("pointers", vh::fmt("buffer outside of the array after %s", op));
}
// One random history. zterm: C string.
template <typename D> void history(Rng& g, bool zterm) {
    std::size_t cap = zterm ? 1 + gen_len(g) : gen_len(g);
    std::unique_ptr<C[]> mem(new C[cap]);
    C* arr = mem.get();
    for (std::size_t i = 0; i < cap; ++i) arr[i] = (C)'#';
    std::string log;
    D d(arr, arr + cap);
    const std::size_t room = zterm ? cap - 1 : cap;
    S model; bool good = true, truncated = false;
    unsigned ops = 1 + (unsigned)g.below(12);
    bool finished = false;
    auto note = [&](const std::string& s) { log += s + " "; };
    for (unsigned k = 0; k < ops; ++k) {
        C c = (C)g.range('a', 'z');
        std::string op;
        switch (g.below(8)) {
        case 0: case 1: { // write
            std::size_t left = good ? room - model.size() : 64;
            long n = g.chance(1, 10) ? -(long)g.below(3) : g.coin() ? (long)g.below(20) : g.coin() ? (long)left + (long)g.range(-2, 2) : (long)gen_len(g);
            S s((std::size_t)std::max(0l, n), c);
            std::unique_ptr<C[]> src(new C[s.size()]); std::copy(s.begin(), s.end(), src.get());  // exact size: reading one more is an ASan report
            op = vh::fmt("write(%ld)", n); note(op);
            d.write(src.get(), n);
            if (good) { if (s.size() <= left) model += s; else { model += s.substr(0, left); good = false; truncated = true; } }
            break; }
        case 2: op = "put"; note(op);
            strf::put(d, c);
            if (good) { if (model.size() < room) model += c; else { good = false; truncated = true; } }
            break;
        case 3: { // what printers do
            std::size_t n = g.below(65); op = vh::fmt("ensure(%zu)", n); note(op);
            d.ensure(n);
            if (good && room - model.size() < n) { good = false; truncated = true; }
            if (d.buffer_space() < n) vh::violation("ensure", vh::fmt("only %zu units after ensure(%zu): %s", d.buffer_space(), n, log.c_str()));
            std::size_t m = n ? g.below(n + 1) : 0;
            std::fill_n(d.buffer_ptr(), m, c); d.advance(m);
            if (good) model += S(m, c);
            break; }
        case 4: { std::size_t n = g.below(d.buffer_space() + 1); op = vh::fmt("advance_to(+%zu)", n); note(op);
            std::fill_n(d.buffer_ptr(), n, c); d.advance_to(d.buffer_ptr() + n);
            if (good) model += S(n, c);
            break; }
        case 5: if (!g.chance(1, 3)) continue;
            op = g.coin() ? "flush" : "recycle"; note(op);
            if (op == "flush") d.flush(); else d.recycle();
            good = false; truncated = true;
            if (d.buffer_space() < 64) vh::violation("recycle-space", vh::fmt("%zu units after recycle: %s", d.buffer_space(), log.c_str()));
            break;
        case 6: { op = "write_fill"; note(op); int n = (int)g.below(100); // a whole print
            std::size_t left = good ? room - model.size() : 0;
            strf::to(static_cast<strf::destination<C>&>(d))(strf::multi(c, n));
            if (good) { if ((std::size_t)n <= left) model += S((std::size_t)n, c); else { model += S(left, c); good = false; truncated = true; } }
            break; }
        default: if (!g.chance(1, 4)) continue;
            op = "finish"; note(op);
            { auto r = d.finish();
              if (r.truncated != (truncated || (finished && zterm))) vh::violation("truncated", vh::fmt("finish().truncated is %d after: %s (array of %zu)", r.truncated, log.c_str(), cap));
              if (r.ptr != arr + model.size()) vh::violation("finish-ptr", vh::fmt("finish().ptr at %td instead of %zu after: %s (array of %zu)", r.ptr - arr, model.size(), log.c_str(), cap));
              else if (zterm && *r.ptr != C()) vh::violation("no-terminator", log);
              if (zterm) { good = false; finished = true; } }
            break;
        }
        check_out(d, arr, cap, op.c_str(), good);
        vh::event("operations"); if (!good) vh::event("operations-after-overflow");
        if (S(arr, arr + std::min(cap, model.size())) != model)
            vh::violation("content", vh::fmt("array of %zu holds %s instead of %s after: %s", cap, vh::show(arr, cap).c_str(), vh::show(model).c_str(), log.c_str()));
    }
    auto r = d.finish();
    if (r.truncated != (truncated || (finished && zterm))) vh::violation("truncated", vh::fmt("finish().truncated is %d after: %s (array of %zu)", r.truncated, log.c_str(), cap));
    if (r.ptr != arr + model.size()) vh::violation("finish-ptr", vh::fmt("finish().ptr at %td instead of %zu after: %s (array of %zu)", r.ptr - arr, model.size(), log.c_str(), cap));
    else {
        if (zterm && *r.ptr != C()) vh::violation("no-terminator", log);
        if (S(arr, arr + model.size()) != model) vh::violation("content", vh::fmt("array of %zu holds %s instead of %s after: %s", cap, vh::show(arr, cap).c_str(), vh::show(model).c_str(), log.c_str()));
        // beyond what was printed nothing was promised to be written, except by printers in their own buffer area
    }
    vh::nontrivial(vh::hash_of(log, cap, zterm));
    if (vh::want_sample()) vh::sample(vh::fmt("%s array of %zu: %s", zterm ? "cstr" : "range", cap, log.c_str()));
}
// Fixed-size array type for the array overloads
template <std::size_t N> struct Box { C a[N]; };

template <typename R> void judge(const char* how, const C* arr, std::size_t cap, const R& r, const S& want, bool zterm) {
    std::size_t len = (std::size_t)(r.ptr - arr);
    bool fits = want.size() + zterm <= cap;
    auto w = [&] { return vh::fmt("%s, array of %zu, job %u, output of %zu", how, cap, jobs::last_job, want.size()); };
    if (r.ptr < arr || len > cap - zterm) { vh::violation("result-ptr", w() + vh::fmt(": result.ptr %td", r.ptr - arr)); return; }
    if (zterm && arr[len] != C()) vh::violation("no-terminator", w());
    if (r.truncated == fits) vh::violation("truncated", w() + vh::fmt(": truncated is %d", r.truncated));
    if (fits ? (len != want.size() || S(arr, len) != want) : want.compare(0, len, arr, len) != 0)
        vh::violation("array-content", w() + ": " + vh::show(arr, len, 300) + " instead of " + vh::show(want, 300));
    vh::event(fits ? "prints-that-fit" : "prints-truncated");
}
static void printing(Rng& g, std::uint64_t) {
    auto s1 = g.next();
    jobs::job<C>(g, [&](auto&& pack, auto&&... a) {
        Rng h(s1);
        TinyDst<C> ref(1, 66000, 0);
        strf::to(static_cast<strf::destination<C>&>(ref)).with(pack)(a...);
        auto want = ref.finish();
        vh::nontrivial(vh::hash_of(want, jobs::last_job));
        for (int r = 0; r < 4; ++r) {
            std::size_t cap = r == 0 ? want.size() + 1 : r == 1 ? want.size() + h.below(4) : r == 2 ? h.below(want.size() + 1) : want.size();
            if (cap == 0) cap = 1;
            std::unique_ptr<C[]> mem(new C[cap]); C* arr = mem.get(); std::fill_n(arr, cap, (C)'#');
            switch (h.below(3)) {
                case 0: judge("to(ptr,count)", arr, cap, strf::to(arr, cap).with(pack)(a...), want, true); break;
                case 1: judge("to(ptr,end)", arr, cap, strf::to(arr, arr + cap).with(pack)(a...), want, true); break;
                default: { strf::basic_cstr_destination<C> d(arr, cap); strf::to(static_cast<strf::destination<C>&>(d)).with(pack)(a...); judge("basic_cstr_destination", arr, cap, d.finish(), want, true); }
            }
            std::fill_n(arr, cap, (C)'#');
            switch (h.below(3)) {
                case 0: judge("to_range(ptr,count)", arr, cap, strf::to_range(arr, cap).with(pack)(a...), want, false); break;
                case 1: judge("to_range(ptr,end)", arr, cap, strf::to_range(arr, arr + cap).with(pack)(a...), want, false); break;
                default: { strf::array_destination<C> d(arr, cap); strf::to(static_cast<strf::destination<C>&>(d)).with(pack)(a...); judge("array_destination", arr, cap, d.finish(), want, false); }
            }
        }
        { std::unique_ptr<Box<10>> b(new Box<10>); judge("to(arr[10])", b->a, 10, strf::to(b->a).with(pack)(a...), want, true);
          judge("to_range(arr[10])", b->a, 10, strf::to_range(b->a).with(pack)(a...), want, false); }
        { std::unique_ptr<Box<130>> b(new Box<130>); judge("to(arr[130])", b->a, 130, strf::to(b->a).with(pack)(a...), want, true);
          judge("to_range(arr[130])", b->a, 130, strf::to_range(b->a).with(pack)(a...), want, false); }
        { std::unique_ptr<Box<1>> b(new Box<1>); judge("to(arr[1])", b->a, 1, strf::to(b->a).with(pack)(a...), want, true); }
    });
}
static void run() {
    std::string n = cname<C>::v;
    vh::section(("cstr-history-" + n).c_str(), 60000, 4000000, [](Rng& g, std::uint64_t) { history<strf::basic_cstr_destination<C>>(g, true); });
    vh::section(("range-history-" + n).c_str(), 60000, 4000000, [](Rng& g, std::uint64_t) { history<strf::array_destination<C>>(g, false); });
    vh::section(("printing-" + n).c_str(), 4000, 300000, printing);
}
VH_MAIN(run)
