// Common runtime of all the harnesses: deterministic case generation, violation
// reporting, crash/hang attribution and coverage accounting.  No strf in here.
#ifndef VH_HPP
#define VH_HPP
#include <cstdarg>
#include <cstdint>
#include <type_traits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace vh {

inline std::uint64_t mix(std::uint64_t z) {
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline std::uint64_t hash_bytes(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ull) {
    auto* b = static_cast<const unsigned char*>(p);
    for (std::size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    return mix(h);
}
template <typename... T> std::uint64_t hash_of(const T&... v);
inline std::uint64_t hash1(std::uint64_t h, const std::string& s) { return mix(h ^ hash_bytes(s.data(), s.size())); }
template <typename C> std::uint64_t hash1(std::uint64_t h, const std::basic_string<C>& s)
{ return mix(h ^ hash_bytes(s.data(), s.size() * sizeof(C))); }
inline std::uint64_t hash1(std::uint64_t h, const char* s) { return mix(h ^ hash_bytes(s, strlen(s))); }
inline std::uint64_t hash1(std::uint64_t h, double d) { std::uint64_t u; memcpy(&u, &d, 8); return mix(h ^ mix(u)); }
template <typename I, typename = std::enable_if_t<std::is_integral<I>::value || std::is_enum<I>::value>>
std::uint64_t hash1(std::uint64_t h, I i) { return mix(h ^ mix(static_cast<std::uint64_t>(i))); }
template <typename... T> std::uint64_t hash_of(const T&... v) {
    std::uint64_t h = 7;
    ((h = hash1(h, v)), ...);
    return h;
}

struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(seed) {}
    std::uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
    std::uint64_t below(std::uint64_t n) { return n ? next() % n : 0; }
    // inclusive
    long long range(long long a, long long b) { return a + (long long)below((std::uint64_t)(b - a) + 1); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    bool coin() { return next() >> 63; }
    template <typename T, std::size_t N> const T& pick(const T (&a)[N]) { return a[below(N)]; }
    template <typename T> const T& pick(const std::vector<T>& a) { return a[below(a.size())]; }
};

struct State {               // mmapped; survives a crash
    char section[128];
    std::uint64_t index;
    std::uint64_t cases;
    char note[1024];
};

struct SectionStat { std::uint64_t cases = 0, nontrivial = 0; };

struct Runtime {
    std::uint64_t seed = 1;
    bool thorough = false;
    unsigned shard = 0, nshards = 1;
    std::string only_section;
    bool only = false;
    std::uint64_t only_index = 0;
    std::map<std::string, std::uint64_t> skip_from; // section -> resume index (after a crash)
    std::string resume_section; std::uint64_t resume_index = 0; bool resuming = false;
    double scale = 1.0;
    State* st = nullptr;
    State local_state{};
    std::map<std::string, SectionStat> stats;
    std::map<std::string, std::uint64_t> events;
    std::vector<std::string> samples;
    std::map<std::string, int> samples_per_section;
    std::set<std::uint64_t> hashes;
    std::map<std::string, unsigned> viol_per_key;
    unsigned viol_total = 0;
    SectionStat* cur = nullptr;
    std::string cur_section;
    const char* hash_file = nullptr;
};
inline Runtime& rt() { static Runtime r; return r; }

inline std::string esc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '\\') o += "\\\\";
        else if (c < 0x20 || c >= 0x7F) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; }
        else o += (char)c;
    }
    return o;
}
inline std::string json_str(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 0x20 || c >= 0x7F) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}
// any character sequence as readable text
template <typename C> std::string show(const C* b, std::size_t n, std::size_t limit = 160) {
    std::string o = "\"";
    std::size_t m = n > limit ? limit : n;
    for (std::size_t i = 0; i < m; ++i) {
        auto u = static_cast<std::uint32_t>(static_cast<std::make_unsigned_t<
            std::conditional_t<std::is_same<C, wchar_t>::value, std::int32_t,
            std::conditional_t<sizeof(C) == 1, char, std::conditional_t<sizeof(C) == 2, std::uint16_t, std::uint32_t>>>>>(b[i]));
        if (u >= 0x20 && u < 0x7F && u != '"' && u != '\\') o += (char)u;
        else { char t[16]; snprintf(t, 16, sizeof(C) == 1 ? "\\x%02X" : "\\{%X}", u); o += t; }
    }
    o += "\"";
    if (n > m) { char t[40]; snprintf(t, 40, "...(%zu units)", n); o += t; }
    return o;
}
template <typename C> std::string show(const std::basic_string<C>& s, std::size_t limit = 160) { return show(s.data(), s.size(), limit); }

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
    va_list ap; va_start(ap, f);
    char buf[4096];
    int n = vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return std::string(buf, n < 0 ? 0 : (n < (int)sizeof buf ? n : (int)sizeof buf - 1));
}

// Report a violation of the property in the current case.
inline void violation(const std::string& key, const std::string& detail) {
    auto& r = rt();
    auto& k = r.viol_per_key[key];
    ++k;
    if (k <= 5) {
        ++r.viol_total;
        std::string line = "@V " + esc(key) + "\t" + r.cur_section + "\t" + std::to_string(r.st->index) + "\t" + esc(detail) + "\n";
        fputs(line.c_str(), stdout); fflush(stdout);
    }
}
inline bool check(bool ok, const char* key, const std::function<std::string()>& detail) {
    if (!ok) violation(key, detail());
    return ok;
}
#define VH_CHECK(cond, key, detail) do { if (!(cond)) ::vh::violation(key, detail); } while (0)

inline void event(const char* name, std::uint64_t n = 1) { rt().events[name] += n; }
inline void nontrivial(std::uint64_t h) {
    auto& r = rt();
    if (r.cur) ++r.cur->nontrivial;
    if (r.hashes.size() < 3000000) r.hashes.insert(mix(h ^ hash_bytes(r.cur_section.data(), r.cur_section.size())));
}
inline bool want_sample() { auto& r = rt(); return r.samples_per_section[r.cur_section] < 2 && r.samples.size() < 24; }
inline void sample(const std::string& s) { auto& r = rt(); ++r.samples_per_section[r.cur_section]; r.samples.push_back(r.cur_section + ": " + s); }
inline bool verbose() { return rt().only; }

inline void arm_hang_timer() {
    struct itimerval it{}; it.it_value.tv_sec = 40;   // CPU seconds for one batch of cases
    setitimer(ITIMER_PROF, &it, nullptr);
}
inline void on_prof(int) {
    static const char m[] = "\n@HANG\n";
    (void)!write(1, m, sizeof m - 1);
    _exit(77);
}

// Run cases [0, n) of a section (only this shard's share of them).
template <typename F>
void section(const char* name, std::uint64_t n_quick, std::uint64_t n_thorough, F&& fn) {
    auto& r = rt();
    if (r.only && r.only_section != name) return;
    std::uint64_t n = r.thorough ? n_thorough : n_quick;
    n = (std::uint64_t)((double)n * r.scale);
    if (n == 0) n = 1;
    std::uint64_t start = 0;
    if (r.resuming) {
        if (r.resume_section != name) return;       // already done before the crash
        r.resuming = false;
        start = r.resume_index;
    }
    r.cur_section = name;
    r.cur = &r.stats[name];
    snprintf(r.st->section, sizeof r.st->section, "%s", name);
    const std::uint64_t base = mix(r.seed) ^ hash_bytes(name, strlen(name));
    unsigned k = 0;
    for (std::uint64_t i = r.only ? r.only_index : start; i < n || r.only; ++i) {
        if (!r.only && i % r.nshards != r.shard) continue;
        if ((k++ & 63) == 0) arm_hang_timer();
        r.st->index = i;
        ++r.cur->cases; ++r.st->cases;
        Rng g(mix(base + i * 0x9E3779B97F4A7C15ull));
        fn(g, i);
        if (r.viol_total > 200) break;
        if (r.only) break;
    }
}
// An exhaustive section: cases are the indices of an enumeration of exactly n points, the same in both tiers
template <typename F> void exhaustive(const char* name, std::uint64_t n, F&& fn) {
    auto sc = rt().scale; rt().scale = 1.0;
    section(name, n, n, std::forward<F>(fn));
    rt().scale = sc;
}

inline int run(int argc, char** argv, void (*body)()) {
    auto& r = rt();
    r.st = &r.local_state;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&](const char* p) { return a.substr(strlen(p)); };
        if (a.rfind("seed=", 0) == 0) r.seed = strtoull(val("seed=").c_str(), nullptr, 10);
        else if (a == "tier=thorough") r.thorough = true;
        else if (a == "tier=quick") r.thorough = false;
        else if (a.rfind("shard=", 0) == 0) { sscanf(a.c_str(), "shard=%u/%u", &r.shard, &r.nshards); }
        else if (a.rfind("scale=", 0) == 0) r.scale = atof(val("scale=").c_str());
        else if (a.rfind("only=", 0) == 0) {
            auto v = val("only="); auto c = v.rfind(':');
            r.only = true; r.only_section = v.substr(0, c); r.only_index = strtoull(v.c_str() + c + 1, nullptr, 10);
        }
        else if (a.rfind("resume=", 0) == 0) {
            auto v = val("resume="); auto c = v.rfind(':');
            r.resuming = true; r.resume_section = v.substr(0, c); r.resume_index = strtoull(v.c_str() + c + 1, nullptr, 10);
        }
        else if (a.rfind("state=", 0) == 0) {
            int fd = open(val("state=").c_str(), O_RDWR | O_CREAT, 0600);
            if (fd < 0 || ftruncate(fd, sizeof(State)) != 0) { fprintf(stderr, "cannot open state file\n"); return 70; }
            void* m = mmap(nullptr, sizeof(State), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m == MAP_FAILED) return 70;
            r.st = static_cast<State*>(m);
            close(fd);
        }
        else if (a.rfind("hashes=", 0) == 0) r.hash_file = strdup(val("hashes=").c_str());
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 70; }
    }
    struct sigaction sa{}; sa.sa_handler = on_prof; sigaction(SIGPROF, &sa, nullptr);
    body();
    struct itimerval off{}; setitimer(ITIMER_PROF, &off, nullptr);
    std::string o = "@S {\"sections\":{";
    bool first = true;
    for (auto& s : r.stats) {
        o += (first ? "" : ",") + json_str(s.first) + ":[" + std::to_string(s.second.cases) + "," + std::to_string(s.second.nontrivial) + "]";
        first = false;
    }
    o += "},\"events\":{"; first = true;
    for (auto& s : r.events) { o += (first ? "" : ",") + json_str(s.first) + ":" + std::to_string(s.second); first = false; }
    o += "},\"samples\":["; first = true;
    for (auto& s : r.samples) { o += (first ? "" : ",") + json_str(s.substr(0, 400)); first = false; }
    o += "]}\n";
    fputs(o.c_str(), stdout); fflush(stdout);
    if (r.hash_file) {
        FILE* f = fopen(r.hash_file, "wb");
        if (f) { for (auto h : r.hashes) fwrite(&h, 8, 1, f); fclose(f); }
    }
    return 0;
}
#define VH_MAIN(body) int main(int argc, char** argv) { return ::vh::run(argc, argv, body); }

} // namespace vh
#endif
