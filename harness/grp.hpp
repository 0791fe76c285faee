// Reference digit grouping: plain vectors, no strf code.
#ifndef GRP_HPP
#define GRP_HPP
#include "gen.hpp"
namespace gen {
struct Grp {                     // groups from the least significant one; the last repeats unless fin
    std::vector<int> g; bool fin = false;
    std::string show() const { std::string s; for (int x : g) s += std::to_string(x) + ","; return s + (fin ? "-1" : "*"); }
    // how many digits lie right of each separator
    std::vector<int> cuts(int digits) const {
        std::vector<int> c; if (g.empty()) return c;
        int at = 0; std::size_t i = 0;
        for (;;) {
            if (i >= g.size()) { if (fin) return c; at += g.back(); }
            else at += g[i++];
            if (at >= digits) return c;
            c.push_back(at);
        }
    }
    u32s apply(const u32s& d, char32_t sep) const {
        auto c = cuts((int)d.size()); u32s o;
        for (std::size_t i = 0; i < d.size(); ++i) {
            o += d[i];
            int right = (int)(d.size() - 1 - i);
            if (right && std::find(c.begin(), c.end(), right) != c.end()) o += sep;
        }
        return o;
    }
};
inline Grp gen_grp(Rng& g, int maxgroups = 6) {
    Grp r; if (g.chance(1, 10)) return r;
    unsigned n = 1 + (unsigned)g.below(g.coin() ? 2 : (unsigned)maxgroups);
    for (unsigned i = 0; i < n; ++i) r.g.push_back(g.chance(1, 8) ? (int)g.range(1, 31) : (int)g.range(1, 5));
    r.fin = g.chance(1, 3);
    return r;
}
// every documented way of building it
inline strf::digits_grouping to_strf(const Grp& r, unsigned how = 0) {
    auto& v = r.g;
    if (v.empty()) return how & 1 ? strf::digits_grouping() : strf::digits_grouping("");
    switch (how % 3) {
        case 0: {
            std::string s; for (int x : v) s += (char)x;
            if (r.fin) s += (char)-1;
            return strf::digits_grouping(s.c_str());
        }
        case 1: {
            strf::digits_grouping_creator c;
            for (std::size_t i = 0; i + 1 < v.size(); ++i) c.push_high(v[i]);
            if (r.fin) { c.push_high(v.back()); return c.finish_no_more_sep(); }
            c.push_high(v.back()); return c.finish();
        }
        default: break;
    }
    auto f = r.fin;
    switch (v.size()) {
        case 1: return f ? strf::digits_grouping(v[0], -1) : strf::digits_grouping(v[0]);
        case 2: return f ? strf::digits_grouping(v[0], v[1], -1) : strf::digits_grouping(v[0], v[1]);
        case 3: return f ? strf::digits_grouping(v[0], v[1], v[2], -1) : strf::digits_grouping(v[0], v[1], v[2]);
        case 4: return f ? strf::digits_grouping(v[0], v[1], v[2], v[3], -1) : strf::digits_grouping(v[0], v[1], v[2], v[3]);
        case 5: return f ? strf::digits_grouping(v[0], v[1], v[2], v[3], v[4], -1) : strf::digits_grouping(v[0], v[1], v[2], v[3], v[4]);
        default: return f ? strf::digits_grouping(v[0], v[1], v[2], v[3], v[4], v[5], -1) : strf::digits_grouping(v[0], v[1], v[2], v[3], v[4], v[5]);
    }
}
} // namespace gen
#endif
