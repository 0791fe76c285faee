// P29: the contract of output_buffer, whatever the destination: random histories of
// its operations against a model, on recording destinations whose buffers are
// exact-size heap blocks, and on the library's own array destinations and discarder.
#include "vh.hpp"
#include <strf/destination.hpp>
#include <strf/iterator.hpp>
#include <strf/output_buffer_functions.hpp>
#include <strf.hpp>
#include <memory>
#include <iterator>
using vh::Rng;
#ifndef CH
#  define CH char
#endif
using C = CH;
using Str = std::vector<C>;
static std::string show(const Str& s) { std::string o; for (auto c : s) { if (o.size() > 300) { o += "..."; break; } o += vh::fmt("%llx ", (unsigned long long)c); } return o + vh::fmt("(%zu units)", s.size()); }
static C unit(Rng& g) { auto v = g.next(); C c; memcpy(&c, &v, sizeof c); if (c == C()) c = (C)1; return c; }

// ---------------------------------------------------------------- recording destination
// Hands out exact-size heap blocks of the smallest sizes allowed; goes bad at some recycle.
template <unsigned L> struct Rec : strf::output_buffer<C, L> {
    using B = strf::output_buffer<C, L>;
    C* blk; std::size_t cap; Rng g; long bad_at; bool own_write;
    Str out;                       // what was delivered while good
    unsigned long recycles = 0, writes = 0; std::size_t last_write = 0; const C* last_src = nullptr;
    bool swallow = false;
    Rec(std::uint64_t seed, std::size_t first, long bad, bool ow) : Rec(new C[first ? first : 1], first, seed, bad, ow) {}
    Rec(C* b, std::size_t n, std::uint64_t seed, long bad, bool ow) : B(b, n), blk(b), cap(n), g(seed), bad_at(bad), own_write(ow) {}
    ~Rec() override { delete[] blk; }
    void take() {
        auto* p = this->buffer_ptr();
        if (p < blk || p > blk + cap) { vh::violation("pointer-outside-buffer", vh::fmt("pointer %td beyond the begin of a buffer of %zu", p - blk, cap)); return; }
        if (this->good()) out.insert(out.end(), (const C*)blk, (const C*)p);
    }
    void recycle() override {
        take(); ++recycles;
        delete[] blk;
        cap = ((std::size_t)1 << L) + (g.chance(1, 2) ? g.below(9) : 0);
        blk = new C[cap];
        this->set_buffer_ptr(blk); this->set_buffer_end(blk + cap);
        if (bad_at >= 0 && (long)recycles > bad_at) this->set_good(false);
    }
    void do_write(const C* s, std::size_t n) override {
        ++writes; last_write = n; last_src = s;
        if (!own_write) { strf::output_buffer<C, 0>::do_write(s, n); return; }
        // an implementation of the user's: delivers straight
        recycle();
        if (this->good()) out.insert(out.end(), s, s + n);
    }
    Str total() { Str t = out; if (this->good()) t.insert(t.end(), (const C*)blk, (const C*)this->buffer_ptr()); return t; }
};
template <unsigned L> static void records(Rng& g, std::uint64_t) {
    using D = Rec<L>;
    constexpr std::ptrdiff_t M = (std::ptrdiff_t)1 << L;
    static_assert(D::min_space_after_recycle == (std::size_t)M && D::min_sspace_after_recycle == M, "");
    auto first = g.chance(1, 3) ? 0 : g.below((std::uint64_t)M + 4);
    long bad = g.chance(1, 2) ? -1 : (long)g.below(6);
    bool ow = g.chance(1, 3);
    D d(g.next(), first, bad, ow);
    strf::output_buffer<C, 0>& b = d;
    Str want; std::string hist = vh::fmt("Log2 %u, first buffer %zu, bad after %ld, own do_write %d: ", L, (size_t)first, bad, (int)ow);
    bool was_good = true;
    auto good0 = [&] { return d.good(); };
    unsigned n = 1 + (unsigned)g.below(30);
    std::uint64_t h = 0;
    for (unsigned op = 0; op < n; ++op) {
        auto r0 = d.recycles; auto sp = b.buffer_sspace(); bool gd = good0(); auto w0 = d.writes;
        auto k = g.below(13);
        long arg = 0;
        // what must have happened: `room` the most a call may leave to be recycled for
        switch (k) {
            case 0: case 1: {      // ensure, integers of any type, through either class
                std::ptrdiff_t s = g.chance(1, 4) ? -(std::ptrdiff_t)g.below(100) : g.chance(1, 3) ? M : (std::ptrdiff_t)g.below((std::uint64_t)M + 1);
                arg = (long)s;
                if (s > sp && s > M) break;
                bool base = g.coin();
                if (s < 0 || s > 100) { if (base) b.ensure(s); else d.ensure((long long)s); }
                else switch (g.below(4)) {
                    case 0: if (base) b.ensure((signed char)s); else d.ensure((signed char)s); break;
                    case 1: if (base) b.ensure((std::size_t)s); else d.ensure((std::size_t)s); break;
                    case 2: if (base) b.ensure((unsigned short)s); else d.ensure((int)s); break;
                    default: if (base) b.require(s); else d.require(s); break;
                }
                if ((d.recycles != r0) != (sp < s)) vh::violation("ensure-recycles", hist + vh::fmt("ensure(%td) with room for %td recycled %lu times", s, sp, d.recycles - r0));
                if (b.buffer_sspace() < s) vh::violation("ensure-leaves-too-little", hist + vh::fmt("ensure(%td) left room for %td", s, b.buffer_sspace()));
                vh::event(sp < s ? "ensure that recycles" : "ensure with room");
                break;
            }
            case 2: {
                C c = unit(g);
                strf::put(b, c);
                if (d.recycles - r0 != (sp == 0 ? 1u : 0u)) vh::violation("put-recycles", hist + vh::fmt("put with room for %td recycled %lu times", sp, d.recycles - r0));
                if (gd && d.good()) want.push_back(c);
                else if (gd) { }      // went bad while making room
                vh::event("put");
                break;
            }
            case 3: case 4: {      // write
                std::ptrdiff_t c = g.chance(1, 8) ? -(std::ptrdiff_t)g.below(5) : g.chance(1, 3) ? (std::ptrdiff_t)g.below((std::uint64_t)sp + 2) : (std::ptrdiff_t)g.below((std::uint64_t)M * 4 + 10);
                std::unique_ptr<C[]> src(new C[c > 0 ? c : 0]);
                for (std::ptrdiff_t i = 0; i < c; ++i) src[i] = unit(g);
                arg = (long)c;
                if (c < 0 || c > 100) b.write(src.get(), c);
                else switch (g.below(3)) { case 0: b.write(src.get(), (unsigned char)c); break; case 1: b.write(src.get(), (std::size_t)c); break; default: b.write(src.get(), (int)c); }
                bool through = c > 0 && c > sp;
                if ((d.writes != w0) != through) vh::violation("write-dispatch", hist + vh::fmt("write of %td with room for %td called do_write %lu times", c, sp, d.writes - w0));
                else if (through && (d.last_write != (std::size_t)c || d.last_src != src.get())) vh::violation("write-dispatch", hist + vh::fmt("write of %td passed %zu units on", c, d.last_write));
                if (!through && d.recycles != r0) vh::violation("write-recycles", hist + vh::fmt("write of %td with room for %td recycled", c, sp));
                if (c <= 0) { if (b.buffer_sspace() != sp) vh::violation("empty-write", hist + "write of nothing moved the pointer"); vh::event("write of nothing"); }
                else if (d.good()) { want.insert(want.end(), src.get(), src.get() + c); vh::event(through ? "write over several buffers" : "write with room"); }
                else if (gd) {      // bad on the way: what had been delivered is a prefix
                    Str t = d.out; Str w = want; w.insert(w.end(), src.get(), src.get() + c);
                    if (t.size() < want.size() || t.size() > w.size() || !std::equal(t.begin(), t.end(), w.begin())) vh::violation("write-going-bad", hist + "delivered " + show(t) + " of " + show(w));
                    want = t; vh::event("write that goes bad");
                }
                break;
            }
            case 5: case 6: {      // straight into the buffer
                std::ptrdiff_t c = (std::ptrdiff_t)g.below((std::uint64_t)sp + 1);
                if (sp == 0 && g.coin()) { d.ensure(1); sp = d.buffer_sspace(); c = (std::ptrdiff_t)g.below((std::uint64_t)sp + 1); gd = d.good(); }
                auto* p = b.buffer_ptr();
                Str add;
                for (std::ptrdiff_t i = 0; i < c; ++i) { p[i] = unit(g); add.push_back(p[i]); }
                switch (g.below(4)) {
                    case 0: b.advance_to(p + c); break;
                    case 1: b.advance(c); break;
                    case 2: if (c < 200) { b.advance((unsigned char)c); break; } b.advance((std::size_t)c); break;
                    default: for (std::ptrdiff_t i = 0; i < c; ++i) b.advance();
                }
                if (b.buffer_ptr() != p + c) vh::violation("advance", hist + vh::fmt("advance by %td moved by %td", c, b.buffer_ptr() - p));
                if (gd) want.insert(want.end(), add.begin(), add.end());
                arg = (long)c; vh::event("advance");
                break;
            }
            case 7: {
                if (g.coin()) b.flush(); else d.flush();
                if (d.recycles != r0 + 1) vh::violation("flush", hist + vh::fmt("flush recycled %lu times", d.recycles - r0));
                if (b.buffer_sspace() < M) vh::violation("flush", hist + vh::fmt("flush left %td", b.buffer_sspace()));
                vh::event("flush"); break;
            }
            case 8: {
                b.recycle();
                if (b.buffer_sspace() < M) vh::violation("recycle", hist + "too little room");
                break;
            }
            case 9: {              // iterator
                auto c = g.below(40); Str add; bool lost = false;
                auto it = g.coin() ? strf::make_iterator(b) : strf::output_buffer_iterator<C>(b);
                for (unsigned i = 0; i < c; ++i) {
                    C u = unit(g); bool gd1 = d.good();
                    switch (g.below(4)) { case 0: *it++ = u; break; case 1: *it = u; ++it; break; case 2: { auto it2 = it; *it2 = u; it2++; break; } default: it = u; }
                    if (gd1 && d.good()) add.push_back(u); else lost = true;
                    if (it.failed() != !d.good()) vh::violation("iterator-failed", hist + "failed() is not !good()");
                }
                want.insert(want.end(), add.begin(), add.end());
                vh::event("iterator", c); (void)lost; arg = (long)c;
                break;
            }
            case 10: {             // algorithms through the iterator
                Str src; for (auto c = g.below(60); c; --c) src.push_back(unit(g));
                bool gd1 = d.good();
                std::copy(src.begin(), src.end(), strf::make_iterator(b));
                if (gd1 && d.good()) want.insert(want.end(), src.begin(), src.end());
                else if (gd1) { Str t = d.out, w = want; w.insert(w.end(), src.begin(), src.end());
                    if (t.size() < want.size() || t.size() > w.size() || !std::equal(t.begin(), t.end(), w.begin())) vh::violation("copy-going-bad", hist + "delivered " + show(t) + " of " + show(w));
                    want = t; }
                arg = (long)src.size();
                break;
            }
            case 11: {             // fill
                std::ptrdiff_t c = g.chance(1, 6) ? -(std::ptrdiff_t)g.below(9) : (std::ptrdiff_t)g.below((std::uint64_t)M * 3 + 20); C u = unit(g);
                strf::detail::write_fill(b, c, u);
                arg = (long)c;
                if (c > 0) {
                    Str w = want; w.insert(w.end(), (std::size_t)c, u);
                    if (gd && d.good()) want = w;
                    else if (gd) { Str t = d.out; if (t.size() < want.size() || t.size() > w.size() || !std::equal(t.begin(), t.end(), w.begin())) vh::violation("fill-going-bad", hist + "delivered " + show(t)); want = t; }
                }
                if (c <= sp && d.recycles != r0) vh::violation("fill-recycles", hist + vh::fmt("fill of %td with room for %td recycled", c, sp));
                vh::event("fill");
                break;
            }
            default: {             // units of another type
                std::vector<unsigned char> src; for (auto c = g.below(100); c; --c) src.push_back((unsigned char)(1 + g.below(127)));
                std::vector<signed char> s2(src.begin(), src.end());
                strf::detail::output_buffer_interchar_copy(b, s2.data(), s2.data() + s2.size());
                Str w = want; for (auto c : src) w.push_back((C)c);
                if (gd && d.good()) want = w;
                else if (gd) { Str t = d.out; if (t.size() < want.size() || t.size() > w.size() || !std::equal(t.begin(), t.end(), w.begin())) vh::violation("copy-going-bad", hist + "delivered " + show(t)); want = t; }
                arg = (long)src.size(); vh::event("copy of other units");
                break;
            }
        }
        hist += vh::fmt("%llu(%ld) ", (unsigned long long)k, arg); h = vh::mix(h ^ k ^ (std::uint64_t)arg << 8);
        if (!was_good && d.good()) { vh::violation("good-again", hist + "good() turned true again"); return; }
        was_good = d.good();
        if (b.buffer_ptr() > b.buffer_end() || b.ptr() != b.buffer_ptr() || b.end() != b.buffer_end() || b.pointer() != b.buffer_ptr() || b.buffer_sspace() != b.buffer_end() - b.buffer_ptr()
            || b.sspace() != b.buffer_sspace() || b.space() != (std::size_t)b.buffer_sspace() || b.buffer_space() != b.space()) { vh::violation("observers", hist + "observers disagree"); return; }
        if (b.buffer_ptr() < d.blk || b.buffer_end() != d.blk + d.cap) { vh::violation("observers", hist + "buffer changed by other than recycle()"); return; }
        if (!d.good()) {     // nothing is delivered any more; the prefix stands
            if (d.out.size() > want.size() && gd == false) { vh::violation("delivered-when-bad", hist + "delivered after going bad"); return; }
            want.resize(std::min(want.size(), d.out.size()));
            if (!std::equal(want.begin(), want.end(), d.out.begin())) { vh::violation("content", hist + "delivered " + show(d.out) + " expected " + show(want)); return; }
            want = d.out;
            vh::event("operations when bad");
        } else {
            Str t = d.total();
            if (t != want) { vh::violation("content", hist + "holds " + show(t) + " expected " + show(want)); return; }
        }
    }
    vh::event("histories"); if (bad >= 0 && !d.good()) vh::event("histories that went bad");
    vh::nontrivial(vh::mix(h ^ L));
    if (vh::want_sample()) vh::sample(hist);
}

// ---------------------------------------------------------------- the library's array destinations and discarder
template <typename D> static bool op_any(Rng& g, D& d, Str& all, std::string& hist) {
    auto k = g.below(7); long arg = 0;
    switch (k) {
        case 0: { C c = unit(g); strf::put<C>(d, c); all.push_back(c); break; }
        case 1: { Str s; for (auto n = g.below(100); n; --n) s.push_back(unit(g)); s.shrink_to_fit(); d.write(s.data(), s.size()); all.insert(all.end(), s.begin(), s.end()); arg = (long)s.size(); break; }
        case 2: { auto n = (std::ptrdiff_t)g.below(90); C c = unit(g); strf::detail::write_fill<C>(d, n, c); all.insert(all.end(), (std::size_t)n, c); arg = (long)n; break; }
        case 3: { auto n = g.below(65); bool gd = d.good(); auto sp = d.buffer_space(); d.ensure(n); if (d.buffer_space() < n) { vh::violation("ensure-leaves-too-little", hist); return false; }
                  if (gd && !d.good() && sp >= n) { vh::violation("ensure-recycles", hist + "went bad though there was room"); return false; }
                  if (n == 0) break;
                  auto* p = d.buffer_ptr(); for (std::size_t i = 0; i < n; ++i) { p[i] = unit(g); all.push_back(p[i]); } d.advance(n); arg = (long)n; break; }
        case 4: { auto it = strf::make_iterator<C>(d); for (auto n = g.below(30); n; --n) { C c = unit(g); *it++ = c; all.push_back(c); } break; }
        case 5: { if (g.chance(1, 4)) { d.flush(); if (d.buffer_space() < strf::min_destination_buffer_size) { vh::violation("flush", hist); return false; } hist += "F "; return true; } break; }
        default: { d.write(nullptr, 0); d.write(nullptr, -5); break; }
    }
    hist += vh::fmt("%llu(%ld) ", (unsigned long long)k, arg);
    return true;
}
// the buffer of a destination that is not good is valid memory: fill it up to its last unit
template <typename D> static void touch(Rng& g, D& d) {
    for (auto* p = d.buffer_ptr(); p != d.buffer_end(); ++p) *p = unit(g);
}
static void arrays(Rng& g, std::uint64_t) {
    auto cap = g.chance(1, 3) ? g.below(8) : g.below(400);
    bool cstr = g.coin(); if (cstr) ++cap;
    std::unique_ptr<C[]> a(new C[cap]);
    for (std::size_t i = 0; i < cap; ++i) a[i] = (C)0x55;
    Str all; std::string hist = vh::fmt("%s of %zu: ", cstr ? "basic_cstr_destination" : "array_destination", (size_t)cap); bool dropped = false;
    auto go = [&](auto& d, std::size_t room) {
        bool was = d.good();
        if (!was) vh::violation("not-good-at-first", hist);
        Str kept;          // what must be in the array: everything up to where it first lost something
        for (unsigned n = 1 + (unsigned)g.below(12); n; --n) {
            auto before = all.size(); bool gd = d.good(); auto hl = hist.size();
            if (!op_any(g, d, all, hist)) return;
            if (was && !d.good()) { dropped = true;
                // an ensure() or flush() that goes bad drops nothing of what came before
                if (hist[hl] == '3' || hist[hl] == 'F') kept = Str(all.begin(), all.begin() + (std::ptrdiff_t)before);
                else kept = Str(all.begin(), all.begin() + (std::ptrdiff_t)std::min(all.size(), room)); }
            if (!was && d.good()) { vh::violation("good-again", hist); return; }
            if (d.good() && all.size() > room) { vh::violation("still-good", hist + vh::fmt("%zu units in room for %zu", all.size(), room)); return; }
            if (!d.good()) { touch(g, d); if (d.buffer_space() > (std::size_t)strf::garbage_buff_size || d.buffer_ptr() < strf::garbage_buff<C>() || d.buffer_end() != strf::garbage_buff_end<C>()) vh::violation("garbage", hist + "buffer of a bad destination"); }
            was = d.good(); (void)gd;
        }
        if (!dropped) kept = all;
        auto r = d.finish();
        if (r.truncated != dropped) vh::violation("truncated", hist + vh::fmt("truncated is %d", (int)r.truncated));
        auto len = (std::size_t)(r.ptr - a.get());
        if (len != kept.size() || !std::equal(kept.begin(), kept.end(), a.get())) { vh::violation("content", hist + vh::fmt("%zu units, expected ", len) + show(kept)); return; }
        if (cstr && !(a[len] == C())) vh::violation("terminator", hist + "no terminator");
        vh::event(dropped ? "arrays overflown" : "arrays not overflown");
    };
    auto how = g.below(3);
    if (cstr) {
        using D = strf::basic_cstr_destination<C>;
        if (how == 0) { D d(a.get(), cap); go(d, cap - 1); }
        else if (how == 1) { D d(a.get(), a.get() + cap); go(d, cap - 1); }
        else { D d(typename D::range{ a.get(), a.get() + cap }); go(d, cap - 1); }
    } else {
        using D = strf::array_destination<C>;
        if (how == 0) { D d(a.get(), cap); go(d, cap); }
        else if (how == 1) { D d(a.get(), a.get() + cap); go(d, cap); }
        else { D d(typename D::range{ a.get(), a.get() + cap }); go(d, cap); }
    }
    vh::nontrivial(vh::hash_of(hist));
    if (vh::want_sample()) vh::sample(hist);
}
static void discard(Rng& g, std::uint64_t) {
    strf::discarder<C> d; Str all; std::string hist = "discarder: ";
    for (unsigned n = 1 + (unsigned)g.below(20); n; --n) {
        if (!op_any(g, d, all, hist)) return;
        if (d.good()) { vh::violation("discarder-good", hist); return; }
        if (d.buffer_ptr() < strf::garbage_buff<C>() || d.buffer_end() != strf::garbage_buff_end<C>() || d.buffer_ptr() > d.buffer_end()) { vh::violation("garbage", hist + "buffer of a discarder"); return; }
        touch(g, d);
        vh::event("discarded operations");
    }
    vh::nontrivial(vh::hash_of(hist));
}
#ifdef LITERALS
static void literals(Rng& g, std::uint64_t) {     // write(output_buffer<char>&, const char*)
    {
        Rec<3> d(g.next(), g.below(9), -1, g.coin());
        Str want;
        for (unsigned n = 1 + (unsigned)g.below(8); n; --n) {
            std::string s; for (auto k = g.below(40); k; --k) s += unit(g);
            std::unique_ptr<char[]> p(new char[s.size() + 1]); memcpy(p.get(), s.c_str(), s.size() + 1);
            strf::write(d, p.get());
            want.insert(want.end(), s.begin(), s.end());
        }
        if (d.total() != want) vh::violation("content", "write(dst, str): " + show(d.total()) + " expected " + show(want));
        vh::nontrivial(vh::hash_bytes(want.data(), want.size()));
    }
}
#endif
static void body() {
    vh::section("log2-0", 8000, 300000, records<0>);
    vh::section("log2-1", 4000, 100000, records<1>);
    vh::section("log2-2", 4000, 100000, records<2>);
    vh::section("log2-4", 4000, 200000, records<4>);
    vh::section("log2-6", 8000, 300000, records<6>);
    vh::section("log2-8", 2000, 60000, records<8>);
    vh::section("arrays", 8000, 300000, arrays);
    vh::section("discarder", 1500, 50000, discard);
#ifdef LITERALS
    vh::section("write-string", 1000, 20000, literals);
#endif
}
VH_MAIN(body)
