// Contents: what the structures of the zoo are built from.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <algorithm>
typedef std::vector<uint64_t> Vals;
typedef std::vector<uint64_t> Dump;
typedef std::vector<uint8_t> Bits;

namespace zoo {
    struct Content { Vals ints; Bits bits, parens; };

    static const size_t NCONTENT = 14;

    inline Vals ints(size_t c)
    {
        Vals v;
        switch (c) {
        case 0: break;
        case 1: v = {0}; break;
        case 2: v = {1}; break;
        case 3: v = {7, 0, 3, 3, 1}; break;
        case 4: for (uint64_t i = 0; i < 63; ++i) v.push_back(i % 5); break;
        case 5: for (uint64_t i = 0; i < 65; ++i) v.push_back((i * 7) % 4); break;
        case 6: for (uint64_t i = 0; i < 200; ++i) v.push_back((i * 2654435761u >> 8) % 50); break;
        case 7: for (uint64_t i = 0; i < 1100; ++i) v.push_back(i % 100 == 99 ? 250 : i % 3); break;
        case 8: for (uint64_t i = 0; i < 3000; ++i) v.push_back((i * i) % 1000); break;
        case 9: v.assign(5000, 0); break;
        case 10: v = {uint64_t(1) << 40, 5, uint64_t(1) << 60, 0, (uint64_t(1) << 61) - 1, uint64_t(1) << 32}; break;
        case 11: for (uint64_t i = 0; i < 2500; ++i) v.push_back(i % 2 ? 60 : 90); break;
        case 12: for (uint64_t i = 0; i < 700; ++i) v.push_back(700 - i); break;
        case 13: for (uint64_t i = 0; i < 12; ++i) v.push_back(i == 6 ? 100000 : i); break;
        // beyond NCONTENT: large ones
        case 14: for (uint64_t i = 0; i < 12000; ++i) v.push_back((i * 7919) % 1000); break;
        case 15: for (uint64_t i = 0; i < 12500; ++i) v.push_back(i % 3000); break;
        }
        return v;
    }
    // hills on a plateau: matches within a block, across blocks and across superblocks
    inline Bits hills(size_t plateau, size_t n, size_t height)
    {
        Bits b(plateau, 1);
        for (size_t i = 0; i < n; ++i) { b.insert(b.end(), height, 1); b.insert(b.end(), height, 0); }
        b.insert(b.end(), plateau, 0);
        return b;
    }
    // gaps between ones
    inline Bits bits_of(Vals const& v, uint64_t cap, size_t tail)
    {
        Bits b;
        for (uint64_t x : v) { b.insert(b.end(), size_t(std::min<uint64_t>(x, cap)), 0); b.push_back(1); }
        b.insert(b.end(), tail, 0);
        return b;
    }
    inline Bits parens_of(Vals const& v, bool deep)
    {
        Bits b;
        size_t depth = 0;
        for (uint64_t x : v) {
            size_t o = size_t(x % 5 + 1), k = size_t(x / 3 % 6);
            if (deep) { o = 100; k = 20; }
            b.insert(b.end(), o, 1); depth += o;
            k = std::min(k, depth - 1);
            b.insert(b.end(), k, 0); depth -= k;
        }
        b.insert(b.end(), depth, 0);
        return b;
    }
    inline Content content(size_t c)
    {
        Content r;
        r.ints = ints(c);
        r.bits = bits_of(r.ints, c == 13 ? 100000 : 300, c % 3 == 2 ? 5 : 0);
        r.parens = c == 14 ? hills(200, 40, 250) : c == 15 ? hills(200, 26, 400) : parens_of(r.ints, c == 12);
        return r;
    }
}
