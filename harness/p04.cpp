// P04: FILE* and streambuf writers against sinks that record, refuse and recover.
#ifndef JOBS
#define JOBS 0x3FFFF
#endif
#include "jobs.hpp"
#include <strf/to_cfile.hpp>
#include <strf/to_streambuf.hpp>
#include <memory>
#include <sstream>
#include <streambuf>
#include <clocale>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdexcept>
#include <cstdio>
#include <cerrno>
using namespace gen;
#ifndef CH
#define CH char
#endif
using C = CH;
using S = std::basic_string<C>;

// ------------------------------------------------ sinks
struct FileSink {           // a FILE that accepts `budget` bytes, refuses once, then (optionally) recovers
    std::string got; long budget = -1; bool recover = false; unsigned refusals = 0, calls_after = 0;
    FILE* f = nullptr;
    static ssize_t wr(void* c, const char* p, size_t n) {
        auto* s = static_cast<FileSink*>(c);
        if (s->refusals) { ++s->calls_after; if (!s->recover) { errno = EIO; return 0; } s->got.append(p, n); return (ssize_t)n; }
        if (s->budget >= 0 && (long)n > s->budget) {
            n = (size_t)s->budget; s->budget = 0; ++s->refusals; s->got.append(p, n); errno = ENOSPC; return (ssize_t)n;
        }
        if (s->budget >= 0) s->budget -= (long)n;
        s->got.append(p, n);
        return (ssize_t)n;
    }
    FileSink(long b, bool r, bool buffered) : budget(b), recover(r) {
        cookie_io_functions_t io{}; io.write = wr;
        f = fopencookie(this, "w", io);
        if (!f) { fprintf(stderr, "fopencookie failed\n"); _exit(70); }
        if (!buffered) setvbuf(f, nullptr, _IONBF, 0);
    }
    ~FileSink() { fclose(f); }
    FileSink(const FileSink&) = delete;
};
template <typename T> struct BufSink : std::basic_streambuf<C, T> {
    S got; long budget = -1; bool recover = false; unsigned refusals = 0, calls_after = 0; bool throws = false;
    BufSink(long b, bool r, bool t) : budget(b), recover(r), throws(t) {}
    std::streamsize xsputn(const C* p, std::streamsize n) override {
        if (refusals) { if (n) ++calls_after; if (!recover) return 0; got.append(p, (std::size_t)n); return n; }
        if (budget >= 0 && n > budget) {
            ++refusals;
            if (throws) throw std::runtime_error("sink");
            n = budget; got.append(p, (std::size_t)n); return n;
        }
        if (budget >= 0) budget -= n;
        got.append(p, (std::size_t)n); return n;
    }
    typename T::int_type overflow(typename T::int_type c) override {
        if (T::eq_int_type(c, T::eof())) return T::not_eof(c);
        C x = T::to_char_type(c); return xsputn(&x, 1) == 1 ? c : T::eof();
    }
};
struct MyTraits : std::char_traits<C> {};

// ------------------------------------------------ operations
template <typename D> void ops(Rng& g, D& d, S& model, std::string& log, unsigned n) {
    bool was_bad = false;
    for (unsigned k = 0; k < n; ++k) {
        C c = (C)g.range('a', 'z');
        switch (g.below(7)) {
        case 0: case 1: { long m = g.chance(1, 10) ? -(long)g.below(3) : g.coin() ? (long)d.buffer_space() + (long)g.range(-2, 2) : (long)gen_len(g);
            if (g.chance(1, 20)) m = 1000 + (long)g.below(9000);
            S s((std::size_t)std::max(0l, m), c);
            std::unique_ptr<C[]> src(new C[s.size()]); std::copy(s.begin(), s.end(), src.get());
            log += vh::fmt("write(%ld) ", m); d.write(src.get(), m); model += s; break; }
        case 2: log += "put "; strf::put(static_cast<strf::output_buffer<C, 0>&>(d), c); model += c; break;
        case 3: { std::size_t r = g.below(65); log += vh::fmt("ensure(%zu)", r); d.ensure(r);
            if (d.buffer_space() < r) { vh::violation("ensure", log); return; }
            std::size_t m = g.below(r + 1); log += vh::fmt("+%zu ", m);
            std::fill_n(d.buffer_ptr(), m, c); d.advance(m); model += S(m, c); break; }
        case 4: { std::size_t m = g.below(d.buffer_space() + 1); log += vh::fmt("advance_to(+%zu) ", m);
            std::fill_n(d.buffer_ptr(), m, c); d.advance_to(d.buffer_ptr() + m); model += S(m, c); break; }
        case 5: log += "recycle "; d.recycle(); if (d.buffer_space() < 64) vh::violation("recycle-space", log); break;
        default: { int m = (int)g.below(150); log += vh::fmt("multi(%d) ", m); strf::to(static_cast<strf::destination<C>&>(d))(strf::multi(c, m)); model += S((std::size_t)m, c); }
        }
        if (was_bad && d.good()) vh::violation("good-again", log);
        was_bad = !d.good();
        vh::event(was_bad ? "operations-after-sink-failure" : "operations");
    }
}
// what must have arrived, in units
static void verdict(const char* who, const std::string& log, const S& model, long budget_units, std::size_t received, const S& got,
                    bool have_result, std::size_t count, bool success, unsigned calls_after, bool finished) {
    std::size_t want = budget_units < 0 || model.size() <= (std::size_t)budget_units ? model.size() : (std::size_t)budget_units;
    bool ok = want == model.size();
    auto w = [&] { return vh::fmt("%s (%zu printed, sink accepts %ld): ", who, model.size(), budget_units) + log; };
    if (got.size() != want || model.compare(0, want, got) != 0)
        vh::violation(std::string("received:") + who, w() + vh::fmt("sink received %zu: ", got.size()) + vh::show(got, 80) + " of " + vh::show(model, 80));
    if (have_result) {
        if (count != want) vh::violation(std::string("count:") + who, w() + vh::fmt("result.count is %zu, sink accepted %zu", count, received));
        if (success != ok) vh::violation(std::string("success:") + who, w() + vh::fmt("result.success is %d", success));
    }
    if (calls_after) vh::violation(std::string("sent-after-failure:") + who, w() + vh::fmt("%u more calls after the sink refused", calls_after));
    vh::event(ok ? "complete-deliveries" : "refused-deliveries");
    if (!finished) vh::event("unfinished-writers");
}
static S units(const std::string& b) { S s(b.size() / sizeof(C), C()); memcpy(&s[0], b.data(), s.size() * sizeof(C)); return s; }
static long gen_budget(Rng& g) { return g.chance(2, 5) ? -1 : g.chance(1, 4) ? (long)g.below(64 * 20) : (long)gen_len(g); }

template <std::size_t BufSize> void cfile_history(Rng& g) {
    long b = gen_budget(g); bool rec = g.coin(), fin = !g.chance(1, 5); unsigned n = (unsigned)g.below(9);
    FileSink sink(b < 0 ? -1 : b * (long)sizeof(C), rec, false);
    S model; std::string log; std::size_t count = 0; bool success = false;
    {
        strf::narrow_cfile_writer<C, BufSize> d(sink.f);
        ops(g, d, model, log, n);
        if (fin) { log += "finish "; auto r = d.finish(); count = r.count; success = r.success; if (d.good()) vh::violation("good-after-finish", log);
            if (g.coin()) { std::string l2; S m2; ops(g, d, m2, l2, 2); } }
    }
    verdict("narrow_cfile_writer", log, model, b, sink.got.size() / sizeof(C), units(sink.got), fin, count, success, sink.calls_after, fin);
    vh::nontrivial(vh::hash_of(log, b, fin));
    if (vh::want_sample()) vh::sample(vh::fmt("sink accepts %ld: ", b) + log + vh::fmt("-> %zu of %zu", sink.got.size() / sizeof(C), model.size()));
}
template <typename T> void streambuf_history(Rng& g) {
    long b = gen_budget(g); bool rec = g.coin(), fin = !g.chance(1, 5), thr = b >= 0 && g.chance(1, 6); unsigned n = (unsigned)g.below(9);
    BufSink<T> sink(b, rec, thr);
    S model; std::string log; std::size_t count = 0; bool success = false, threw = false;
    try {
        std::unique_ptr<strf::basic_streambuf_writer<C, T>> d(g.coin() ? new strf::basic_streambuf_writer<C, T>(sink) : new strf::basic_streambuf_writer<C, T>(&sink));
        ops(g, *d, model, log, n);
        if (fin) { log += "finish "; auto r = d->finish(); count = (std::size_t)r.count; success = r.success; if (d->good()) vh::violation("good-after-finish", log);
            if (g.coin()) { std::string l2; S m2; ops(g, *d, m2, l2, 2); } }
    } catch (const std::runtime_error&) { threw = true; vh::event("sink-exceptions"); }
    if (thr) { // only: what arrived is a prefix of what was printed
        if (sink.refusals && !threw && fin) vh::violation("exception-swallowed", log);
    } else verdict("streambuf_writer", log, model, b, sink.got.size(), sink.got, fin, count, success, sink.calls_after, fin);
    vh::nontrivial(vh::hash_of(log, b, fin));
    if (vh::want_sample()) vh::sample(vh::fmt("sink accepts %ld: ", b) + log + vh::fmt("-> %zu of %zu", sink.got.size(), model.size()));
}
#ifdef WIDE
// stdio's wide streams need a real descriptor: an anonymous memory file that refuses to grow beyond `budget` bytes
struct WideSink {
    int fd; FILE* f; long budget;
    explicit WideSink(long b) : budget(b) {
        fd = memfd_create("sink", MFD_ALLOW_SEALING);
        if (fd < 0) { fprintf(stderr, "memfd_create failed\n"); _exit(70); }
        if (b >= 0 && (ftruncate(fd, b) != 0 || fcntl(fd, F_ADD_SEALS, F_SEAL_GROW) != 0)) { fprintf(stderr, "sealing failed\n"); _exit(70); }
        f = fdopen(fd, "w");
        if (!f) { fprintf(stderr, "fdopen failed\n"); _exit(70); }
        setvbuf(f, nullptr, _IONBF, 0);
    }
    std::string got() {
        off_t pos = lseek(fd, 0, SEEK_CUR);
        std::string s((std::size_t)(pos < 0 ? 0 : pos), 0);
        ssize_t n = pread(fd, &s[0], s.size(), 0);
        s.resize((std::size_t)(n < 0 ? 0 : n));
        return s;
    }
    ~WideSink() { fclose(f); }
    WideSink(const WideSink&) = delete;
};
static void wide_history(Rng& g) {
    long b = gen_budget(g); bool fin = !g.chance(1, 5); unsigned n = (unsigned)g.below(7);
    WideSink sink(b);
    S model; std::string log; std::size_t count = 0; bool success = false;
    std::string at_end;
    {
        strf::wide_cfile_writer d(sink.f);
        ops(g, d, model, log, n);
        if (fin) { log += "finish "; auto r = d.finish(); count = r.count; success = r.success; if (d.good()) vh::violation("good-after-finish", log); }
    }
    at_end = sink.got();
    S got; for (unsigned char c : at_end) got += (wchar_t)c;
    verdict("wide_cfile_writer", log, model, b, got.size(), got, fin, count, success, 0, fin);
    vh::nontrivial(vh::hash_of(log, b, fin));
}
#endif
static void printing(Rng& g, std::uint64_t) {
    auto s1 = g.next();
    jobs::job<C>(g, [&](auto&& pack, auto&&... a) {
        Rng h(s1);
        TinyDst<C> ref(1, 66000, 0);
        strf::to(static_cast<strf::destination<C>&>(ref)).with(pack)(a...);
        auto want = ref.finish();
        vh::nontrivial(vh::hash_of(want, jobs::last_job));
        auto log = vh::fmt("job %u", jobs::last_job);
        { FileSink s(-1, false, true); auto r = strf::to<C>(s.f).with(pack)(a...); fflush(s.f);
          verdict("to(FILE*)", log, want, -1, 0, units(s.got), true, r.count, r.success, 0, true); }
        { long b = (long)h.below(want.size() + 2); FileSink s(b * (long)sizeof(C), h.coin(), false); auto r = strf::to<C>(s.f).with(pack)(a...);
          verdict("to(FILE*)", log, want, b, s.got.size() / sizeof(C), units(s.got), true, r.count, r.success, s.calls_after, true); }
        { BufSink<std::char_traits<C>> s(-1, false, false); auto r = strf::to(s).with(pack)(a...);
          verdict("to(streambuf)", log, want, -1, s.got.size(), s.got, true, (std::size_t)r.count, r.success, s.calls_after, true); }
        { long b = (long)h.below(want.size() + 2); BufSink<MyTraits> s(b, h.coin(), false); auto r = strf::to(&s).with(pack)(a...);
          verdict("to(streambuf*)", log, want, b, s.got.size(), s.got, true, (std::size_t)r.count, r.success, s.calls_after, true); }
        if constexpr (!std::is_same<C, char16_t>::value) { // (char16_t 0xFFFF is eof there)
          std::basic_stringbuf<C> s; auto r = strf::to(s).with(pack).line(a...); S w = want; w += (C)'\n';
          verdict("to(stringbuf).line", log, w, -1, 0, s.str(), true, (std::size_t)r.count, r.success, 0, true); }
#ifdef WIDE
        { WideSink s(-1);
          auto r = strf::wto(s.f).with(pack)(a...);
          // reference: fputwc, one by one
          WideSink t(-1); std::size_t n = 0; for (C c : want) { if (fputwc(c, t.f) == WEOF) break; ++n; }
          if (s.got() != t.got() || r.count != n || r.success != (n == want.size()))
              vh::violation("wto", log + vh::fmt(": count %zu success %d, expected %zu of %zu", r.count, r.success, n, want.size())); }
#endif
    });
}
static void run() {
#ifdef WIDE
    if (!setlocale(LC_ALL, "C.UTF-8")) { fprintf(stderr, "no C.UTF-8 locale\n"); _exit(70); }
#endif
    std::string n = cname<C>::v;
    vh::section(("cfile-history-" + n).c_str(), 15000, 1000000, [](Rng& g, std::uint64_t i) { if (i & 1) cfile_history<64>(g); else cfile_history<177>(g); });
    vh::section(("streambuf-history-" + n).c_str(), 20000, 1500000, [](Rng& g, std::uint64_t i) { if (i & 1) streambuf_history<std::char_traits<C>>(g); else streambuf_history<MyTraits>(g); });
#ifdef WIDE
    vh::section("wide-cfile-history", 10000, 500000, [](Rng& g, std::uint64_t) { wide_history(g); });
#endif
    vh::section(("printing-" + n).c_str(), 2500, 200000, printing);
}
VH_MAIN(run)
