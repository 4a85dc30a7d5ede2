// Spaces of balanced parenthesis sequences (1 = open) shared by the parenthesis checks.
#pragma once
#include "ref.hpp"
#include "succinct/bp_vector.hpp"

namespace bps {
    struct Prof { const char* name; std::vector<std::pair<int, size_t>> runs; };  // runs of +1/-1/0 (0: "()" pairs, 2: ")(" pairs)

    inline void run(Bits& b, int kind, size_t len)
    {
        switch (kind) {
        case 1: b.insert(b.end(), len, 1); break;
        case -1: b.insert(b.end(), len, 0); break;
        case 0: for (size_t i = 0; i < len; ++i) b.push_back(i % 2 == 0); break;
        case 2: for (size_t i = 0; i < len; ++i) b.push_back(i % 2 == 1); break;
        case 3: for (size_t i = 0; i < len; ++i) b.push_back(i % 4 < 2); break;           // (())
        case 4: for (size_t i = 0; i < len; ++i) b.push_back(i % 16 < 8); break;
        case 5: for (size_t i = 0; i < len; ++i) b.push_back(i % 3 != 2); break;           // (() : climbs slowly
        case 6: for (size_t i = 0; i < len; ++i) b.push_back(i % 3 == 0); break;           // ()) : descends slowly
        }
    }

    // prepend opens (flat filler of `fill` bits first) so that the excess never goes below 0, append closes to balance
    inline Bits balance(Bits const& body, size_t fill = 0, size_t more = 0)
    {
        int64_t e = 0, mn = 0;
        for (auto x : body) { e += x ? 1 : -1; mn = std::min(mn, e); }
        size_t up = size_t(-mn) + more;
        Bits b;
        run(b, 0, fill & ~size_t(1));
        if (fill & 1) up += 1;                 // odd filler: one more open
        b.insert(b.end(), up, 1);
        ref::append(b, body);
        b.insert(b.end(), size_t(int64_t(up) + e), 0);
        return b;
    }

    // `body` placed at exactly offset `at` (enough opens before it), then balanced
    inline Bits place(Bits const& body, size_t at, bool flat)
    {
        int64_t e = 0, mn = 0;
        for (auto x : body) { e += x ? 1 : -1; mn = std::min(mn, e); }
        size_t up = size_t(-mn);
        Bits b;
        if (at < up) at = up;
        if (flat) { run(b, 0, (at - up) & ~size_t(1)); b.insert(b.end(), at - b.size(), 1); }
        else b.insert(b.end(), at, 1);
        ref::append(b, body);
        int64_t x = 0;
        for (auto v : b) x += v ? 1 : -1;
        b.insert(b.end(), size_t(x), 0);
        return b;
    }

    template <typename F> void dyck(size_t n, Bits& b, size_t open, size_t close, F f)
    {
        if (b.size() == 2 * n) { f(b); return; }
        if (open < n) { b.push_back(1); dyck(n, b, open + 1, close, f); b.pop_back(); }
        if (close < open) { b.push_back(0); dyck(n, b, open, close + 1, f); b.pop_back(); }
    }

    // f(Bits, size class): 0 all pairs affordable, 1 medium, 2 large; g: huge only
    template <typename F> void families(F f)
    {
        size_t N = mc::thorough ? 11 : 8;
        if (mc::section("every balanced sequence"))
            for (size_t n = 0; n <= N; ++n) { Bits b; dyck(n, b, 0, 0, [&](Bits const& x) { if (mc::mine()) f(x, 0); }); }

        size_t WN = mc::thorough ? 12 : 9;
        if (mc::section("every window at every offset in a word"))
            for (size_t off = 0; off < 66; ++off) for (int flat = 0; flat < 2; ++flat) for (uint64_t x = 0; x < uint64_t(1) << WN; ++x)
                if (mc::mine()) f(place(ref::from_int(x, WN), 64 + off, flat), 3);

        if (mc::section("every window across block and superblock boundaries"))
            for (size_t at : {256, 512, 8192, 16384}) for (size_t off = 0; off <= WN; off += (mc::thorough ? 1 : 3)) for (int flat = 0; flat < 2; ++flat) for (uint64_t x = 0; x < uint64_t(1) << (at > 1000 ? WN - 3 : WN); ++x)
                if (mc::mine()) f(place(ref::from_int(x, WN), at - off, flat), at > 1000 ? 4 : 3);

        // word-sized profiles
        std::vector<std::vector<std::pair<int, size_t>>> words = {
            {{1, 64}}, {{-1, 64}}, {{0, 64}}, {{-1, 32}, {1, 32}}, {{1, 32}, {-1, 32}}, {{2, 64}}, {{1, 31}, {-1, 33}}, {{4, 64}} };
        auto build = [&](std::vector<std::vector<std::pair<int, size_t>>> const& menu, std::vector<size_t> const& s) {
            Bits b;
            for (size_t i : s) for (auto const& r : menu[i]) run(b, r.first, r.second);
            return b;
        };
        if (mc::section("word profiles"))
            ref::sequences(words.size(), mc::thorough ? 5 : 4, [&](std::vector<size_t> const& s) {
                for (size_t fill : {0, 1, 62}) { if (s.size() >= 4 && fill && !mc::thorough) continue; if (mc::mine()) f(balance(build(words, s), fill), s.size() <= 2 ? 0 : 1); }
            });

        // block-sized profiles (256 bits)
        std::vector<std::vector<std::pair<int, size_t>>> blocks = {
            {{1, 256}}, {{-1, 256}}, {{0, 256}}, {{-1, 60}, {1, 196}}, {{1, 190}, {-1, 66}}, {{-1, 1}, {0, 254}, {1, 1}} };
        if (mc::section("block profiles"))
            ref::sequences(blocks.size(), mc::thorough ? 6 : 4, [&](std::vector<size_t> const& s) {
                for (size_t fill : {0, 3, 128, 255}) { if (fill > 3 && s.size() >= 4 && !mc::thorough) continue; if (mc::mine()) f(balance(build(blocks, s), fill), 1); }
            });
        if (mc::section("block profiles across a superblock boundary"))
            ref::sequences(blocks.size(), mc::thorough ? 5 : 3, [&](std::vector<size_t> const& s) {
                for (size_t at : {8192 - 256, 8192 - 512, 8192 - 300}) if (mc::mine()) f(place(build(blocks, s), at, true), 4);
            });

        // superblock-sized profiles (8192 bits)
        std::vector<std::vector<std::pair<int, size_t>>> sup = {
            {{1, 8192}}, {{-1, 8192}}, {{0, 8192}}, {{0, 3000}, {-1, 500}, {1, 500}, {0, 4192}}, {{0, 5000}, {-1, 501}, {1, 501}, {0, 2190}}, {{5, 8192}}, {{6, 8192}} };
        if (mc::section("superblock profiles"))
            ref::sequences(sup.size(), mc::thorough ? 5 : 4, [&](std::vector<size_t> const& s) {
                if (s.size() >= 4 && !mc::thorough && (std::count(s.begin(), s.end(), size_t(5)) || std::count(s.begin(), s.end(), size_t(6)))) return;
                for (size_t fill : {0, 5000}) { if (s.size() > 2 && fill) continue; if (mc::mine()) f(balance(build(sup, s), fill), 4); }
            });

        // S superblocks of flat filler; one pair of parentheses opened in superblock i and closed in j; depth d above
        if (mc::section("one long pair between any two superblocks"))
            for (size_t S : {1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 31, 33}) for (size_t i = 0; i < S; ++i) for (size_t j = i; j < S; ++j) for (int deep = 0; deep < 2; ++deep) {
                if (S > 9 && !mc::thorough && (i * 7 + j) % 5) continue;
                if (!mc::mine()) continue;
                Bits b;
                if (deep) b.insert(b.end(), 700, 1);
                while (b.size() < i * 8192 + 3000) run(b, 0, 2);
                b.push_back(1);
                while (b.size() < j * 8192 + 5003) run(b, 0, 2);
                b.push_back(0);
                while (b.size() < S * 8192 - 1000) run(b, 0, 2);
                if (deep) b.insert(b.end(), 700, 0);
                f(b, 5);
            }

        // S superblocks at depth, superblock k dipping by prof(k)
        if (mc::section("depth profiles over many superblocks"))
            for (size_t S : {2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 17, 24, 31, 32, 33, 40, 64, 65, 70, 100, 129}) for (int prof = 0; prof < 12; ++prof) {
                if (S > 40 && mc::cfg == "asan" && prof % 3) continue;
                if (!mc::mine()) continue;
                Bits b(500, 1);
                for (size_t k = 0; k < S; ++k) {
                    size_t dip = 0;
                    switch (prof) {
                    case 0: dip = 10; break;                            // all equal
                    case 1: dip = 10 + k; break;                        // each deeper
                    case 2: dip = 300 - k; break;                       // each shallower
                    case 3: dip = 50 + (k > S / 2 ? S - k : k); break;  // deepest in the middle
                    case 4: dip = 200 - (k > S / 2 ? S - k : k); break;
                    case 5: dip = 10 + (k == S / 2); break;
                    case 6: dip = 10 + (k == S - 1); break;
                    case 7: dip = 10 + (k == 0); break;
                    case 8: dip = 10 + k % 2; break;
                    case 9: dip = 10 + (k * 7 % 11); break;
                    case 10: dip = 10 + (k & 3 ? 0 : k); break;
                    case 11: dip = 10 + (k * k) % 97; break;
                    }
                    size_t target = (k + 1) * 8192 + (k % 3) * 64;
                    size_t where = k * 8192 + 700 + (k * 1531) % 6000;
                    while (b.size() < where) run(b, 0, 2);
                    b.insert(b.end(), dip, 0); b.insert(b.end(), dip, 1);
                    while (b.size() + 2 < target) run(b, 0, 2);
                }
                b.insert(b.end(), 500, 0);
                f(b, 5);
            }

        if (mc::section("mountains"))
            for (size_t d : {1, 63, 64, 65, 255, 256, 257, 8191, 8192, 8193, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 300000}) for (int shape = 0; shape < 5; ++shape) {
                if (!mc::mine()) continue;
                Bits b;
                switch (shape) {
                case 0: run(b, 1, d); run(b, -1, d); break;
                case 1: run(b, 5, 3 * d); run(b, -1, d); break;
                case 2: run(b, 1, d); run(b, 6, 3 * d); break;
                case 3: run(b, 1, d); run(b, -1, d / 2); run(b, 1, d); run(b, -1, d); run(b, -1, d - d / 2); break;
                case 4: run(b, 1, d); run(b, 0, 20000); run(b, -1, d); run(b, 1, d); run(b, -1, d); break;
                }
                f(b, 5);
            }
    }
}
