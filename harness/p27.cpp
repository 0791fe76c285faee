// P27: printing from several threads to distinct destinations: no data race, no interference.
// Runs under ThreadSanitizer; its reports are classified by the address they are about.
#include "jobs.hpp"
#ifdef CHARSETS
#include "tc.hpp"
#endif
#include <strf/to_string.hpp>
#include <strf/to_streambuf.hpp>
#include <thread>
#include <atomic>
#include <sstream>
#include <sys/wait.h>
#include <sched.h>
using namespace gen;
#ifndef CH
#define CH char
#endif
using C = CH;
using Str = std::basic_string<C>;
// ------------------------------------------------------------------ reports
struct Rep { char what[40]; void* addr; bool garbage; void* pcs[2][12]; };
static Rep reps[16]; static unsigned nreps;
static struct { char* b; char* e; } area[5];
template <typename T> static void set_area(int i) { area[i].b = (char*)strf::garbage_buff<T>(); area[i].e = area[i].b + strf::garbage_buff_size * (std::ptrdiff_t)sizeof(T); }
#define RAW __attribute__((disable_sanitizer_instrumentation, noinline))     // runs inside the sanitizer, with its locks held
extern "C" {
int __tsan_get_report_data(void*, const char**, int*, int*, int*, int*, int*, int*, int*, void**, unsigned long);
int __tsan_get_report_mop(void*, unsigned long, int*, void**, int*, int*, int*, void**, unsigned long);
void __sanitizer_symbolize_pc(void*, const char*, char*, unsigned long);
RAW void __tsan_on_report(void* r) {
    if (nreps >= 16) return;
    Rep& p = reps[nreps];
    const char* d = ""; int c, sc, mc = 0, lc, xc, tc_, uc; void* st[1];
    __tsan_get_report_data(r, &d, &c, &sc, &mc, &lc, &xc, &tc_, &uc, st, 1);
    int n = 0; for (; n < 39 && d[n]; ++n) p.what[n] = d[n]; p.what[n] = 0;
    for (int i = 0; i < 2; ++i) for (int k = 0; k < 12; ++k) p.pcs[i][k] = nullptr;
    p.addr = nullptr;
    for (int i = 0; i < mc && i < 2; ++i) { int tid, size, w, at; void* addr; __tsan_get_report_mop(r, (unsigned long)i, &tid, &addr, &size, &w, &at, p.pcs[i], 12); if (i == 0) p.addr = addr; }
    p.garbage = false; for (int i = 0; i < 5; ++i) if ((char*)p.addr >= area[i].b && (char*)p.addr < area[i].e) p.garbage = true;
    ++nreps;
}
}
static void drain(const std::string& where) {
    for (unsigned i = 0; i < nreps; ++i) {
        std::string s = where + ": " + reps[i].what;
        for (int k = 0; k < 2; ++k) { s += k ? " | previously" : " at"; for (int j = 0; j < 12 && reps[i].pcs[k][j]; ++j) { char b[400]; __sanitizer_symbolize_pc(reps[i].pcs[k][j], "%s:%l in %f", b, sizeof b); std::string f = b; if (f.size() > 130) f.resize(130); if (s.find(f) == s.npos) s += " / " + f; if (s.size() > (k ? 1400u : 700u)) break; } }
        vh::event(reps[i].garbage ? "reports about garbage_buff" : "reports");
        vh::violation(reps[i].garbage ? "race-on-garbage_buff" : std::string("race:") + reps[i].what, s);
    }
    nreps = 0;
}
// ------------------------------------------------------------------ destinations that let the others in
static std::atomic<unsigned> ticket;
struct Log { std::vector<unsigned> t; Rng g{1}; bool yields = false; void point() { t.push_back(ticket.fetch_add(1, std::memory_order_relaxed)); if (yields) { auto k = g.below(8); if (k == 0) sched_yield(); else if (k < 3) for (volatile int i = 0; i < (int)k * 300; ++i) {} } } };
struct YDst final : strf::destination<C> {
    Log& log; C* blk; std::size_t cap; Str out;
    YDst(Log& l, std::size_t first) : YDst(l, new C[first ? first : 1], first) {}
    ~YDst() override { delete[] blk; }
    void recycle() override { out.append(blk, this->buffer_ptr()); log.point(); delete[] blk; cap = 64 + log.g.below(3); blk = new C[cap]; set_buffer_ptr(blk); set_buffer_end(blk + cap); }
    Str finish() { out.append(blk, this->buffer_ptr()); set_buffer_ptr(blk); return out; }
private:
    YDst(Log& l, C* b, std::size_t n) : strf::destination<C>(b, n), log(l), blk(b), cap(n) {}
};
// the same call printed one way or the other
template <typename Pack, typename... A> static void print_ways(Log& log, std::vector<Str>& out, unsigned ways, const Pack& pack, const A&... a) {
    for (unsigned r = 0; r < ways; ++r) {
        log.point();
        switch (log.g.below(5)) {
            case 0: out.push_back(strf::to_basic_string<C>.with(pack).reserve_calc()(a...)); break;
            case 1: out.push_back(strf::to_basic_string<C>.with(pack)(a...)); break;
            case 2: { std::vector<C> b(12000); strf::array_destination<C> d(b.data(), b.size()); strf::to(static_cast<strf::destination<C>&>(d)).with(pack)(a...); auto e = d.finish(); if (e.truncated) { YDst y(log, 0); strf::to(static_cast<strf::destination<C>&>(y)).with(pack)(a...); out.push_back(y.finish()); } else out.push_back(Str(b.data(), e.ptr)); break; }
            default: { YDst d(log, log.g.below(70)); strf::to(static_cast<strf::destination<C>&>(d)).with(pack)(a...); out.push_back(d.finish()); }
        }
    }
}
// run f(thread, log) in n threads that start together
static std::uint64_t together(unsigned n, std::uint64_t seed, bool yields, const std::function<void(unsigned, Log&)>& f) {
    std::vector<Log> logs(n); std::atomic<unsigned> ready{0}; ticket.store(0, std::memory_order_relaxed);
    { std::vector<std::thread> t; for (unsigned i = 0; i < n; ++i) { logs[i].g = Rng(seed + i * 977); logs[i].yields = yields; t.emplace_back([&, i] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < n) sched_yield(); f(i, logs[i]); }); } for (auto& x : t) x.join(); }
    // in which order they reached their points
    std::vector<std::pair<unsigned, unsigned>> all; for (unsigned i = 0; i < n; ++i) for (auto x : logs[i].t) all.push_back({ x, i });
    std::sort(all.begin(), all.end()); std::uint64_t h = n; unsigned switches = 0; for (std::size_t i = 0; i < all.size(); ++i) { h = vh::mix(h * 31 + all[i].second); if (i && all[i].second != all[i - 1].second) ++switches; }
    vh::event("points", all.size()); vh::event("switches between threads", switches); if (switches > n - 1) vh::event("interleaved runs");
    return h;
}
static void differ(const char* key, const std::string& how, unsigned i, const Str& got, const Str& want) { vh::violation(key, how + vh::fmt(" thread %u: ", i) + vh::show(got, 300) + " instead of " + vh::show(want, 300)); }
// ------------------------------------------------------------------ workloads
// every thread prints the same arguments, packs, tr-strings
static void shared(Rng& g, std::uint64_t idx) {
    unsigned n = 2 + (unsigned)g.below(4); auto seed = g.next(); bool y = g.coin();
    jobs::job<C>(g, [&](auto&& pack, auto&&... a) {
        std::vector<std::vector<Str>> out(n);
        auto h = together(n, seed, y, [&](unsigned i, Log& log) { print_ways(log, out[i], 3, pack, a...); });
        YDst d(*std::make_unique<Log>(), 64); (void)d;
        Log l; YDst ref(l, 64); strf::to(static_cast<strf::destination<C>&>(ref)).with(pack)(a...); auto want = ref.finish();
        for (unsigned i = 0; i < n; ++i) for (auto& s : out[i]) { vh::event("prints"); if (s != want) differ("interference", vh::fmt("job %u shared by %u", jobs::last_job, n), i, s, want); }
        vh::nontrivial(vh::hash_of(h, want)); if (vh::want_sample()) vh::sample(vh::fmt("%u threads, job %u: ", n, jobs::last_job) + vh::show(want, 200));
    });
    drain(vh::fmt("shared %llu", (unsigned long long)idx));
}
// every thread prints something of its own
static void own(Rng& g, std::uint64_t idx) {
    unsigned n = 2 + (unsigned)g.below(5); auto seed = g.next(); bool y = g.coin(); std::vector<std::uint64_t> s(n); for (auto& x : s) x = g.next(); if (g.chance(1, 3)) for (auto& x : s) x = s[0];
    std::vector<std::vector<Str>> out(n); unsigned rounds = 2;
    auto h = together(n, seed, y, [&](unsigned i, Log& log) { Rng r(s[i]); for (unsigned k = 0; k < rounds; ++k) jobs::job<C>(r, [&](auto&& pack, auto&&... a) { print_ways(log, out[i], 1, pack, a...); }); });
    for (unsigned i = 0; i < n; ++i) { Rng r(s[i]); for (unsigned k = 0; k < rounds; ++k) jobs::job<C>(r, [&](auto&& pack, auto&&... a) {
        Log l; YDst ref(l, 64); strf::to(static_cast<strf::destination<C>&>(ref)).with(pack)(a...); auto want = ref.finish(); vh::event("prints");
        // void pointers in a job are printed as what they are: the generator's address differs
        if (jobs::last_job == 12) return;
        if (k >= out[i].size() || out[i][k] != want) differ("interference", vh::fmt("job %u of its own, %u threads", jobs::last_job, n), i, k < out[i].size() ? out[i][k] : Str(), want); }); }
    vh::nontrivial(h); drain(vh::fmt("own %llu", (unsigned long long)idx));
}
// output that does not fit and output that is discarded
static void overflowing(Rng& g, std::uint64_t idx) {
    unsigned n = 2 + (unsigned)g.below(3); auto seed = g.next(); std::size_t size = 1 + g.below(40);
    jobs::job<C>(g, [&](auto&& pack, auto&&... a) {
        std::vector<std::vector<Str>> out(n);
        auto h = together(n, seed, true, [&](unsigned i, Log& log) { for (int r = 0; r < 3; ++r) { log.point(); std::vector<C> b(size); auto e = strf::to(b.data(), size).with(pack)(a...); out[i].push_back(Str(b.data(), e.ptr)); strf::discarder<C> d; strf::to(static_cast<strf::destination<C>&>(d)).with(pack)(a...); } });
        std::vector<C> b(size); auto e = strf::to(b.data(), size).with(pack)(a...); Str want(b.data(), e.ptr); vh::event(e.truncated ? "truncated prints" : "prints", n);
        for (unsigned i = 0; i < n; ++i) for (auto& s : out[i]) if (s != want) differ("interference", vh::fmt("job %u into %zu, %u threads", jobs::last_job, size, n), i, s, want);
        vh::nontrivial(vh::hash_of(h, want));
    });
    drain(vh::fmt("overflowing %llu", (unsigned long long)idx));
}
#ifdef CHARSETS
// charsets and transcoders
struct Notes final : strf::transcoding_error_notifier { unsigned inv = 0, uns = 0; void invalid_sequence(int, const char*, const void*, std::ptrdiff_t) override { ++inv; } void unsupported_codepoint(const char*, unsigned) override { ++uns; } };
template <typename Cs> static void through(std::vector<std::string>& o, Log& log, const Cs& cs, const u32s& u, const std::string& b) {
    Notes nt; strf::transcoding_error_notifier_ptr np{&nt};
    auto s = strf::to_string.with(cs, np)(strf::transcode(u), (char)'x', U'\u20AC', strf::multi(U'\u00E9', 3), strf::fmt(strf::transcode(u)) > 90); log.point(); o.push_back(s);
    auto t = strf::to_u32string.with(np)(strf::transcode(b, cs)); log.point(); o.push_back(std::string((const char*)t.data(), t.size() * 4));
    auto v = strf::to_u8string.with(np, strf::width_as_u32len)(strf::transcode(s, cs), strf::fmt(strf::transcode(b, cs)) ^ 70); o.push_back(std::string((const char*)v.data(), v.size())); log.point();
    char buf[16]; std::string e; for (auto c : u) { auto* p = cs.encode_char(buf, c); e.append(buf, p); e += (char)('0' + cs.validate(c)); } for (auto c : b) e += std::to_string((unsigned)cs.decode_unit(c));
    { YDst d(log, 5); cs.encode_fill(d, 150, U'\u2014'); e += d.finish(); } e += std::to_string(nt.inv) + "," + std::to_string(nt.uns); o.push_back(e); log.point();
    auto sane = strf::to_string.with(cs, np)(strf::sani(b), strf::fmt(b).p(9)); o.push_back(sane);
    auto calc = strf::std_width_calc; auto r = calc.str_width_and_pos(cs, 7, b.data(), b.data() + b.size()); o.push_back(std::to_string(r.width.underlying_value()) + "," + std::to_string(r.ptr - b.data()));
}
static void between(std::vector<std::string>& o, Log& log, int i, int j, const std::string& b) {
    auto x = tc::sb_dynamic<char>(i).first, y = tc::sb_dynamic<char>(j).first; log.point();
    o.push_back(strf::to_string.with(y)(strf::transcode(b, x))); o.push_back(std::to_string((int)x.id()) + x.name() + y.name());
    auto t = strf::find_transcoder(x, strf::utf32_t<char32_t>{}.to_dynamic()); char32_t buf[300]; auto r = t.transcode(b.data(), b.data() + b.size(), buf, buf + 300, nullptr, strf::transcode_flags::none); o.push_back(std::string((const char*)buf, (const char*)r.dst_ptr)); log.point();
}
static void charsets(Rng& g, std::uint64_t idx) {
    unsigned n = 2 + (unsigned)g.below(4); auto seed = g.next(); bool y = g.coin(); int which = (int)g.below(tc::sb_count + 1), other = (int)g.below(tc::sb_count);
    u32s u = gen_text(g, g.below(80)); for (auto& c : u) if (g.chance(1, 4)) c = (char32_t)g.range(0x80, 0x2500); std::string b; for (unsigned k = (unsigned)g.below(120); k--;) b += (char)g.next(); bool dyn = g.coin();
    auto work = [&](std::vector<std::string>& o, Log& log) {
        int k = 0; if (which == tc::sb_count) { if (dyn) through(o, log, strf::utf8<char>.to_dynamic(), u, b); else through(o, log, strf::utf8<char>, u, b); return; }
        if (dyn) { through(o, log, tc::sb_dynamic<char>(which).first, u, b); between(o, log, which, other, b); return; }
#define X(cs, nm) if (k++ == which) through(o, log, strf::cs<char>, u, b);
        TC_ALL_SB(X)
#undef X
        (void)k;
    };
    std::vector<std::vector<std::string>> out(n); auto h = together(n, seed, y, [&](unsigned i, Log& log) { for (int r = 0; r < 2; ++r) work(out[i], log); });
    std::vector<std::string> want; Log l; work(want, l); work(want, l);
    vh::event("charset runs"); for (unsigned i = 0; i < n; ++i) for (std::size_t k = 0; k < want.size(); ++k) if (k >= out[i].size() || out[i][k] != want[k]) { vh::violation("interference", vh::fmt("charset %d dynamic %d thread %u result %zu: ", which, dyn, i, k) + vh::show(k < out[i].size() ? out[i][k] : std::string(), 200) + " instead of " + vh::show(want[k], 200)); break; }
    vh::nontrivial(vh::hash_of(h, which, dyn)); drain(vh::fmt("charsets %llu", (unsigned long long)idx));
}
#endif
// the first use of everything, in a process of its own
static void first_use(Rng& g, std::uint64_t idx) {
    int fd[2]; if (pipe(fd)) return; fflush(stdout);
    pid_t p = fork(); if (p < 0) { close(fd[0]); close(fd[1]); vh::event("no fork"); return; }
    if (p == 0) {
        close(fd[0]); vh::rt().events.clear(); struct itimerval off{}; setitimer(ITIMER_PROF, &off, nullptr);
#ifdef CHARSETS
        charsets(g, idx);
#else
        if (g.coin()) own(g, idx); else shared(g, idx);
#endif
        std::uint64_t m[4] = { vh::rt().events["switches between threads"], vh::rt().events["interleaved runs"], g.s, 1 }; (void)!write(fd[1], m, sizeof m); fflush(stdout); _exit(vh::rt().viol_total ? 1 : 0);
    }
    close(fd[1]); std::uint64_t m[4] = {}; bool got = read(fd[0], m, sizeof m) == (ssize_t)sizeof m; close(fd[0]); int st = 0; waitpid(p, &st, 0);
    if (!got || !WIFEXITED(st)) vh::violation("first-use-died", vh::fmt("status %X", (unsigned)st)); else if (WEXITSTATUS(st)) ++vh::rt().viol_total;
    vh::event("processes"); vh::event("switches between threads", m[0]); vh::event("interleaved runs", m[1]); vh::nontrivial(m[2]);
}
static void body() {
    set_area<char>(0); set_area<char16_t>(1); set_area<char32_t>(2); set_area<wchar_t>(3); set_area<char8_t>(4);
    vh::section("first use", 300, 6000, first_use);      // before anything else
#ifdef CHARSETS
    vh::section("charsets", 900, 60000, charsets);
#else
    vh::section("shared", 1200, 80000, shared);
    vh::section("own", 1200, 80000, own);
    vh::section("overflowing", 60, 3000, overflowing);
#endif
}
VH_MAIN(body)
