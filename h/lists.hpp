// Spaces of integer sequences shared by the container checks
#pragma once
#include "ref.hpp"
#include <list>
#include <deque>
#include "succinct/gamma_vector.hpp"
#include "succinct/gamma_bit_vector.hpp"
#include "succinct/elias_fano_list.hpp"
#include "succinct/elias_fano_compressed_list.hpp"
#include "succinct/nibble_vector.hpp"
#include "succinct/forward_enumerator.hpp"
typedef std::vector<uint64_t> Vals;

namespace lists {
    static const uint64_t MAX = ~uint64_t(0);

    inline std::string show(Vals const& v)
    {
        std::ostringstream os;
        os << v.size() << " values:";
        for (size_t i = 0; i < v.size() && i < 24; ++i) os << " " << v[i];
        if (v.size() > 24) os << " ...";
        return os.str();
    }
    inline Vals boundary(uint64_t mx)
    {
        Vals m;
        for (int k = 0; k < 64; ++k) for (int d = -3; d <= 1; ++d) { uint64_t x = (uint64_t(1) << k) + uint64_t(int64_t(d)); if (x <= mx) m.push_back(x); }
        for (uint64_t d = 0; d < 4; ++d) m.push_back(mx - d);
        m.push_back(0x5555555555555555ull); m.push_back(0xAAAAAAAAAAAAAAAAull & mx);
        std::sort(m.begin(), m.end());
        m.erase(std::unique(m.begin(), m.end()), m.end());
        while (m.back() > mx) m.pop_back();
        return m;
    }

    // a range that computes its elements: 63-bit values, with a small one at every 1000th index
    struct WideValues { static uint64_t val(uint64_t i) { return i % 1000 == 7 ? i % 3 : (i * 0x9E3779B97F4A7C15ull >> 2) | uint64_t(1) << 62; } };
    struct TinyValues { static uint64_t val(uint64_t i) { return i % 4096 == 7 ? 1 + i / 4096 % 5 : 0; } };
    template <class Values> struct Computed {
        uint64_t n;
        explicit Computed(uint64_t n_) : n(n_) {}
        static uint64_t val(uint64_t i) { return Values::val(i); }
        struct const_iterator {
            typedef std::forward_iterator_tag iterator_category;
            typedef uint64_t value_type; typedef std::ptrdiff_t difference_type; typedef const uint64_t* pointer; typedef uint64_t reference;
            uint64_t i;
            uint64_t operator*() const { return val(i); }
            const_iterator& operator++() { ++i; return *this; }
            const_iterator operator++(int) { const_iterator c = *this; ++i; return c; }
            bool operator==(const_iterator const& o) const { return i == o.i; }
            bool operator!=(const_iterator const& o) const { return i != o.i; }
            difference_type operator-(const_iterator const& o) const { return difference_type(i - o.i); }
        };
        typedef const_iterator iterator;
        const_iterator begin() const { return const_iterator{0}; }
        const_iterator end() const { return const_iterator{n}; }
        uint64_t size() const { return n; }
    };
    typedef Computed<WideValues> Giant;
    typedef Computed<TinyValues> Long;

    // f(values); mx: largest value of the domain; sum_ok: whether the total must stay below 2^64-1
    template <typename F> void families(std::string const& who, uint64_t mx, bool bounded_sum, F f)
    {
        auto ok = [&](Vals const& v) {
            if (!bounded_sum) return true;
            unsigned __int128 s = 0;
            for (auto x : v) s += x;
            return s < MAX;
        };
        if (mc::section((who + ": empty, every boundary value, every pair of them").c_str())) {
            Vals m = boundary(mx);
            if (mc::mine()) f(Vals());
            for (auto x : m) if (mc::mine()) f(Vals(1, x));
            for (auto x : m) for (auto y : m) { Vals v = {x, y}; if (ok(v) && mc::mine()) f(v); }
        }
        if (mc::section((who + ": every triple of a menu").c_str())) {
            Vals m = {0, 1, 2, 3, 6, 7, 255, 256, (1ull << 32) - 1, 1ull << 32, (1ull << 62) - 2, (1ull << 62) - 1, 1ull << 62, (1ull << 63) - 2, (1ull << 63) - 1, 1ull << 63, mx - 1, mx};
            m.erase(std::remove_if(m.begin(), m.end(), [&](uint64_t x) { return x > mx; }), m.end());
            ref::sequences(m.size(), mc::thorough ? 4 : 3, [&](std::vector<size_t> const& s) {
                Vals v; for (size_t i : s) v.push_back(m[i]);
                if (ok(v) && mc::mine()) f(v);
            }, 3);
        }
        if (mc::section((who + ": every short sequence of small values").c_str())) {
            uint64_t K = std::min<uint64_t>(mx, 3) + 1;
            ref::sequences(size_t(K), mc::thorough ? 8 : 6, [&](std::vector<size_t> const& s) { if (mc::mine()) f(Vals(s.begin(), s.end())); });
        }
        if (mc::section((who + ": runs").c_str())) {
            std::vector<std::pair<uint64_t, size_t>> m;
            for (uint64_t x : {uint64_t(0), uint64_t(1), uint64_t(62), std::min<uint64_t>(mx, (1ull << 32) + 5), bounded_sum ? uint64_t(1) << 48 : mx})
                for (size_t c : {1, 15, 63, 64, 65, 130, 1023, 1024, 1100}) if (x <= mx) m.push_back({x, c});
            ref::sequences(m.size(), 2, [&](std::vector<size_t> const& s) {
                Vals v; for (size_t i : s) v.insert(v.end(), m[i].second, m[i].first);
                if (ok(v) && mc::mine()) f(v);
            });
        }
        if (mc::section((who + ": cyclic mixtures").c_str()))
            for (size_t n : {10, 63, 64, 65, 130, 1023, 1024, 1025, 2048, 3000}) for (int p = 0; p < 6; ++p) {
                if (!mc::mine()) continue;
                Vals v;
                for (size_t i = 0; i < n; ++i) {
                    uint64_t x = 0;
                    switch (p) {
                    case 0: x = i; break;
                    case 1: x = n - i; break;
                    case 2: x = uint64_t(1) << (i % (bounded_sum ? 50 : 64)); break;
                    case 3: x = (uint64_t(1) << (i * 7 % (bounded_sum ? 50 : 64))) - 1; break;
                    case 4: x = (i * 0x9E3779B97F4A7C15ull) >> (bounded_sum ? 14 + i % 50 : i % 64); break;
                    case 5: x = i % 65 == 64 ? (bounded_sum ? 1ull << 50 : mx) : 0; break;
                    }
                    v.push_back(mx < 16 ? x & 15 : std::min(x, mx));
                }
                f(v);
            }
        if (mc::section((who + ": long").c_str()))
            for (size_t n : {20000, 70000, 150000}) for (int p = 0; p < 5; ++p) {
                if (!mc::mine()) continue;
                Vals v(n);
                for (size_t i = 0; i < n; ++i) {
                    uint64_t x = p == 0 ? 0 : p == 1 ? (i % 2000 == 1999) * 100000 : p == 2 ? i % 4 : p == 3 ? (bounded_sum ? 1ull << 40 : mx) : (i < n / 2 ? 0 : 3000);
                    v[i] = mx < 16 ? x & 15 : std::min(x, mx);
                }
                f(v);
            }
    }
}
