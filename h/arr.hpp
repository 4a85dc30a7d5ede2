// Spaces of arrays shared by the range-minimum and top-k checks
#pragma once
#include "ref.hpp"
typedef std::vector<uint64_t> Vals;
namespace arrs {
    inline std::string show(Vals const& v)
    {
        std::ostringstream os;
        os << v.size() << " values:";
        for (size_t i = 0; i < v.size() && i < 30; ++i) os << " " << v[i];
        if (v.size() > 30) os << " ...";
        return os.str();
    }
    // kinds: 0 rising, 1 falling, 2 constant, 3 alternating, 4 vee, 5 peak, 6 scattered, 7 falling with repeats, 8 sawtooth
    inline void seg(Vals& v, int kind, size_t len, uint64_t base)
    {
        for (size_t i = 0; i < len; ++i) {
            uint64_t x = 0;
            switch (kind) {
            case 0: x = i; break;
            case 1: x = len - i; break;
            case 2: x = 5; break;
            case 3: x = i % 2; break;
            case 4: x = i < len / 2 ? len / 2 - i : i - len / 2; break;
            case 5: x = i < len / 2 ? i : len - i; break;
            case 6: x = (i * 2654435761u >> 5) % 97; break;
            case 7: x = (len - i) / 3; break;
            case 8: x = i % 17; break;
            }
            v.push_back(base + x);
        }
    }
    template <typename F> void families(F f)    // f(values, all pairs?)
    {
        if (mc::section("every short array over small alphabets")) {
            ref::sequences(3, mc::thorough ? 9 : 7, [&](std::vector<size_t> const& s) { if (mc::mine()) f(Vals(s.begin(), s.end()), true); });
            ref::sequences(2, mc::thorough ? 13 : 10, [&](std::vector<size_t> const& s) { if (mc::mine()) f(Vals(s.begin(), s.end()), true); }, 8);
        }
        if (mc::section("every permutation")) {
            for (size_t n = 1; n <= (mc::thorough ? 8u : 7u); ++n) {
                Vals v(n);
                for (size_t i = 0; i < n; ++i) v[i] = i;
                do { if (mc::mine()) f(v, true); } while (std::next_permutation(v.begin(), v.end()));
            }
        }
        if (mc::section("every short array behind a prefix"))
            for (int kind : {0, 1, 2, 6}) for (size_t pre : {24, 27, 30, 31, 32, 60, 122, 126}) for (size_t post : {0, 40})
                ref::sequences(3, mc::thorough ? 6 : 4, [&](std::vector<size_t> const& s) {
                    if (!mc::mine()) return;
                    Vals v; seg(v, kind, pre, 1);
                    for (size_t x : s) v.push_back(x * 4);
                    seg(v, kind, post, 2);
                    f(v, true);
                }, mc::thorough ? 6 : 4);
        if (mc::section("every length, every shape"))
            for (int kind = 0; kind < 9; ++kind) for (size_t n = 1; n <= 280; n += n < 70 ? 1 : 3) { if (!mc::mine()) continue; Vals v; seg(v, kind, n, 0); f(v, true); }
        if (mc::section("up to three segments")) {
            std::vector<ref::Seg> m = ref::segs({0, 1, 2, 6}, {1, 31, 33, 127});
            ref::sequences(m.size(), mc::thorough ? 3 : 2, [&](std::vector<size_t> const& s) {
                for (int base = 0; base < 3; ++base) {
                    if (!mc::mine()) continue;
                    Vals v;
                    for (size_t i = 0; i < s.size(); ++i) seg(v, m[s[i]].kind, m[s[i]].len, base == 0 ? 0 : base == 1 ? i * 40 : (s.size() - i) * 40);
                    f(v, true);
                }
            }, 2);
            std::vector<ref::Seg> m3 = ref::segs({0, 1, 2}, {20, 64, 130});
            ref::sequences(m3.size(), 3, [&](std::vector<size_t> const& s) {
                if (!mc::mine()) return;
                Vals v;
                for (size_t i = 0; i < s.size(); ++i) seg(v, m3[s[i]].kind, m3[s[i]].len, i == 1 ? 50 : 0);
                f(v, false);
            }, 3);
        }
        if (mc::section("large segments")) {
            std::vector<ref::Seg> m = ref::segs({0, 1, 2, 6, 7}, {3000, 4096, 9000});
            ref::sequences(m.size(), 2, [&](std::vector<size_t> const& s) {
                for (int base = 0; base < 3; ++base) {
                    if (s.size() == 1 && base) continue;
                    if (!mc::mine()) continue;
                    Vals v;
                    for (size_t i = 0; i < s.size(); ++i) seg(v, m[s[i]].kind, m[s[i]].len, base == 0 ? 0 : base == 1 ? i * 10000 : (s.size() - i) * 10000);
                    f(v, false);
                }
            });
        }
        if (mc::section("many segments"))
            for (size_t S : {3, 5, 8, 9, 17, 33, 40}) for (int kind = 0; kind < 9; ++kind) for (int lev = 0; lev < 6; ++lev) {
                if (!mc::mine()) continue;
                Vals v;
                for (size_t k = 0; k < S; ++k) {
                    uint64_t base = lev == 0 ? 0 : lev == 1 ? k : lev == 2 ? S - k : lev == 3 ? (k == S / 2 ? 0 : 3) : lev == 4 ? (k * 7) % 5 : (k > S / 2 ? k - S / 2 : S / 2 - k);
                    seg(v, kind, 4096, base * 7000);
                }
                f(v, false);
            }
        if (mc::section("very large"))
            for (int kind = 0; kind < 9; ++kind) for (size_t n : {70000, 300000}) {
                if (n > 100000 && mc::cfg == "asan") continue;
                if (!mc::mine()) continue;
                Vals v; seg(v, kind, n, 0); f(v, false);
            }
    }

    inline std::vector<uint32_t> keys(Vals const& v, size_t limit)
    {
        size_t n = v.size();
        std::vector<uint32_t> k;
        auto key = [&](int64_t p) { if (p >= 0 && size_t(p) < n) k.push_back(uint32_t(p)); };
        size_t step = std::max<size_t>(1, n / limit);
        for (size_t p = 0; p < n; p += step) { key(int64_t(p)); key(int64_t(p) + 1); }
        for (size_t u : {31, 32, 127, 128, 4095, 4096, 8191, 8192}) { key(int64_t(u)); key(int64_t(n) - int64_t(u)); key(int64_t(n) - int64_t(u) - 1); }
        key(int64_t(n) - 1); key(int64_t(n) - 2);
        size_t c = 0;
        for (size_t i = 1; i + 1 < n && c < 8; ++i) if (v[i] < v[i - 1] && v[i] <= v[i + 1]) { key(int64_t(i)); key(int64_t(i) - 1); key(int64_t(i) + 1); ++c; }
        std::sort(k.begin(), k.end());
        k.erase(std::unique(k.begin(), k.end()), k.end());
        return k;
    }
}
