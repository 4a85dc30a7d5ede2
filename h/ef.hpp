// Spaces of (universe, non-decreasing sequence) shared by the Elias-Fano checks
#pragma once
#include "ref.hpp"
#include <functional>
#include "succinct/elias_fano.hpp"
typedef std::vector<uint64_t> Vals;

namespace efs {
    inline std::string show(uint64_t n, Vals const& v)
    {
        std::ostringstream os;
        os << v.size() << " values below " << n << ":";
        for (size_t i = 0; i < v.size() && i < 24; ++i) os << " " << v[i];
        if (v.size() > 24) os << " ...";
        return os.str();
    }

    inline void from_bits(succinct::elias_fano& ef, uint64_t n, Vals const& v, bool rank_index)
    {
        succinct::bit_vector_builder b(n, 0);
        for (auto x : v) b.set(x, 1);
        succinct::elias_fano(&b, rank_index).swap(ef);
    }

    inline void from_builder(succinct::elias_fano& ef, uint64_t n, Vals const& v, bool rank_index, uint64_t extra = 0)
    {
        succinct::elias_fano::elias_fano_builder b(n, v.size() + extra);
        for (auto x : v) b.push_back(x);
        succinct::elias_fano(&b, rank_index).swap(ef);
    }

    inline bool strict(Vals const& v) { for (size_t i = 1; i < v.size(); ++i) if (v[i] == v[i - 1]) return false; return true; }

    // all non-decreasing sequences of length exactly m over a sorted menu
    template <typename F> void multisets(Vals const& menu, size_t m, F f)
    {
        std::vector<size_t> ix(m, 0);
        if (menu.empty() && m) return;
        for (;;) {
            Vals v(m);
            for (size_t i = 0; i < m; ++i) v[i] = menu[ix[i]];
            f(v);
            size_t i = m;
            while (i > 0 && ix[i - 1] + 1 == menu.size()) --i;
            if (!i) return;
            size_t x = ix[i - 1] + 1;
            for (size_t j = i - 1; j < m; ++j) ix[j] = x;
        }
    }

    inline Vals universes()
    {
        Vals u = {1, 2, 3, 5, 6, 7};
        for (int k = 3; k < 64; ++k) { uint64_t p = uint64_t(1) << k; u.push_back(p - 1); u.push_back(p); u.push_back(p + 1); }
        u.push_back(uint64_t(3) << 62); u.push_back(~uint64_t(0) - 1); u.push_back(~uint64_t(0));
        return u;
    }

    inline Vals value_menu(uint64_t n, bool big)
    {
        Vals v = {0, 1, n / 2, n - 1};
        if (n > 2) v.push_back(n - 2);
        if (n > 3) { v.push_back(n / 3); v.push_back(n / 2 - 1); }
        int k = 63 - __builtin_clzll(n);
        if (k > 1) v.push_back((uint64_t(1) << (k - 1)) - 1);
        if (big && k > 2) { v.push_back(n / 4); v.push_back((uint64_t(1) << (k - 2)) + 1); }
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
        while (!v.empty() && v.back() >= n) v.pop_back();
        return v;
    }

    // f(n, values) over the families every Elias-Fano check shares
    template <typename F> void families(F f)
    {
        size_t N = mc::thorough ? 14 : 11;
        if (mc::section("every subset of a small universe"))
            for (uint64_t n = 0; n <= N; ++n) for (uint64_t x = 0; x < uint64_t(1) << n; ++x) {
                if (!mc::mine()) continue;
                Vals v;
                for (uint64_t i = 0; i < n; ++i) if (x >> i & 1) v.push_back(i);
                f(n, v);
            }
        if (mc::section("every multiset of a small universe"))
            for (uint64_t n = 1; n <= (mc::thorough ? 9u : 7u); ++n) for (size_t m = 1; m <= (mc::thorough ? 8u : 6u); ++m) {
                Vals menu; for (uint64_t i = 0; i < n; ++i) menu.push_back(i);
                multisets(menu, m, [&](Vals const& v) { if (mc::mine()) f(n, v); });
            }
        if (mc::section("few values in every size of universe"))
            for (uint64_t n : universes()) for (size_t m = n < 1000000 ? 0 : 1; m <= 4; ++m) // an empty sequence takes n bits
                multisets(value_menu(n, mc::thorough || m < 4), m, [&](Vals const& v) { if (mc::mine()) f(n, v); });
        if (mc::section("every low-bit width, counts around 64"))
            for (int l = 0; l < 64; ++l) for (uint64_t m : {1, 2, 3, 5, 31, 32, 33, 63, 64, 65, 127, 130, 200}) for (int d = 0; d < 3; ++d) for (int pat = 0; pat < 6; ++pat) {
                if (l >= 56 && m > (uint64_t(1) << (63 - l))) continue;
                if (!mc::mine()) continue;
                uint64_t n = m << l;
                if (d == 1) n -= 1;
                if (d == 2) n = (n - 1) + (n - 1) / 2;
                if (n == 0) n = 1;
                Vals v;
                for (uint64_t i = 0; i < m; ++i) {
                    uint64_t step = n / m ? n / m : 0, x;
                    switch (pat) {
                    case 0: x = i * step; break;                                    // even
                    case 1: x = n - 1 - (m - 1 - i) * step; break;                  // even, up to the end
                    case 2: x = std::min<uint64_t>(i, n - 1); break;                // clustered at the start
                    case 3: x = n - 1 - std::min<uint64_t>(m - 1 - i, n - 1); break; // clustered at the end
                    case 4: x = i * 2 < m ? std::min<uint64_t>(i, n - 1) : n - 1 - std::min<uint64_t>(m - 1 - i, n - 1); break;
                    default: x = i * step + (step ? (i * 0x9E3779B97F4A7C15ull) % step : 0); break;
                    }
                    v.push_back(std::min(x, n - 1));
                }
                std::sort(v.begin(), v.end());
                f(n, v);
            }
        auto menu = ref::segs({0, 1, 2, 3, 7}, {1, 64, 100, 1024, 1100});
        if (mc::section("runs"))
            ref::sequences(menu.size(), mc::thorough ? 3 : 2, [&](std::vector<size_t> const& s) {
                if (!mc::mine()) return;
                Bits b = ref::make(menu, s);
                Vals v;
                for (size_t i = 0; i < b.size(); ++i) if (b[i]) v.push_back(i);
                f(b.size(), v);
            });
        if (mc::section("runs of equal and distinct values"))
            ref::sequences(5, mc::thorough ? 5 : 4, [&](std::vector<size_t> const& s) {
                if (!mc::mine()) return;
                Vals v; uint64_t x = 3;
                for (size_t k : s)
                    for (int i = 0; i < 70; ++i) { v.push_back(x); x += k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 64 : k == 3 ? uint64_t(i == 35) * 5000 : uint64_t(i % 2) * 129; }
                f(x + 10, v);
            });
    }

    // larger ones: the directories over the high bits become sparse (overflow) and pass many blocks
    template <typename F> void large(F f)
    {
        if (mc::section("large sequences"))
            for (int kind = 0; kind < 12; ++kind) for (uint64_t m : {1024, 1025, 5000, 40000, 70000, 140000}) {
                if (!mc::mine()) continue;
                uint64_t n = 0; Vals v; v.reserve(m);
                for (uint64_t i = 0; i < m; ++i) {
                    switch (kind) {
                    case 0: v.push_back(i); break;                                   // dense
                    case 1: v.push_back(i * 3 + i % 2); break;
                    case 2: v.push_back(i < m / 2 ? i : i + 2 * m); break;            // one wide gap
                    case 3: v.push_back(i / 512 * 1000 + i % 512); break;            // clusters
                    case 4: v.push_back(i < 100 ? i : m * 4 + i); break;
                    case 5: v.push_back(i * 1000003); break;
                    case 6: v.push_back(m); break;                                   // all equal
                    case 7: v.push_back(i < m / 2 ? 7 : 7 + i); break;               // half of them equal
                    case 8: v.push_back(i + (i > m / 3) * m + (i > 2 * m / 3) * m); break;
                    case 9: v.push_back(i * (uint64_t(1) << 40) + i % 7); break;
                    case 10: v.push_back(i == m - 1 ? 10 * m : i); break;             // one far value
                    case 11: v.push_back(i == 0 ? 0 : 9 * m + i); break;
                    }
                }
                n = v.back() + 1 + (kind % 3 == 0 ? m : 0);
                f(n, v);
            }
    }

    // 2^27 + 1000 values about 2^34 apart: more than 2^32 low bits
    template <typename F> void giant(F f)
    {
        for (int kind = 0; kind < 2; ++kind) {
            if (!mc::mine()) continue;
            uint64_t m = (uint64_t(1) << 27) + 1000, step = (uint64_t(1) << 34) + 12345;
            // steady, or ten values crowded together out of every 1000
            std::function<uint64_t(uint64_t)> val = [=](uint64_t k) { return kind == 0 || k % 1000 > 10 ? k * step + k % 7 : (k - k % 1000) * step + k % 1000 * 3; };
            uint64_t n = val(m - 1) + 1;
            MC_DESC(m << " values below " << n << ", " << (kind ? "crowded in places" : "evenly spread"));
            mc::state(mc::mix(m, uint64_t(kind)));
            succinct::elias_fano ef;
            {
                succinct::elias_fano::elias_fano_builder b(n, m);
                for (uint64_t k = 0; k < m; ++k) b.push_back(val(k));
                succinct::elias_fano(&b, true).swap(ef);
            }
            EQ(ef.size(), n, "size"); EQ(ef.num_ones(), m, "num_ones");
            f(ef, m, val);
        }
    }
    // more than 2^32 values: every number from 3 on taken 4096 times, two gaps; f(ef, number of values, universe, value)
    template <typename F> void many(F f)
    {
        if (!mc::mine()) return;
        const uint64_t B = uint64_t(1) << 32, m = B + 90000;
        auto val = [=](uint64_t k) { return 3 + (k >> 12) + (k >= 5000000 ? 500 : 0) + (k >= B + 20000 ? 77 : 0); };
        uint64_t n = val(m - 1) + 1000;
        MC_DESC(m << " values below " << n << ", 4096 of each, two gaps");
        mc::state(mc::mix(m, n));
        succinct::elias_fano ef;
        {
            succinct::elias_fano::elias_fano_builder b(n, m);
            for (uint64_t k = 0; k < m; ++k) b.push_back(val(k));
            succinct::elias_fano(&b, true).swap(ef);
        }
        EQ(ef.size(), n, "size"); EQ(ef.num_ones(), m, "num_ones");
        f(ef, m, n, val);
    }
}
