// Boring reference models and the shape generators shared by the harnesses.
#pragma once
#include "mc.hpp"

#include "../h/content.hpp"

namespace ref {

    inline std::string show(Bits const& b)
    {
        std::ostringstream os;
        os << b.size() << " bits ";
        size_t runs = 0;
        for (size_t i = 0; i < b.size();) {
            size_t j = i;
            while (j < b.size() && b[j] == b[i]) ++j;
            if (++runs > 60) { os << "..."; break; }
            if (j - i > 3) os << int(b[i]) << "{" << j - i << "}";
            else for (size_t k = i; k < j; ++k) os << int(b[i]);
            i = j;
        }
        return os.str();
    }

    // zero-padded word at pos
    inline uint64_t word(Bits const& b, size_t pos, size_t len = 64)
    {
        uint64_t r = 0;
        for (size_t i = 0; i < len; ++i) if (pos + i < b.size() && b[pos + i]) r |= uint64_t(1) << i;
        return r;
    }

    // A pattern kind repeated to a length
    inline void add(Bits& b, int kind, size_t len)
    {
        for (size_t i = 0; i < len; ++i) {
            bool v = false;
            switch (kind) {
            case 0: v = 0; break;
            case 1: v = 1; break;
            case 2: v = i % 2 == 0; break;              // 1010...
            case 3: v = i % 64 == 63; break;            // one per word
            case 4: v = i % 64 != 63; break;            // one zero per word
            case 5: v = i % 2 == 1; break;              // 0101...
            case 6: v = (i * i + i / 7) % 3 == 0; break; // irregular
            case 7: v = i % 61 == 0; break;
            case 8: v = i % 3 == 0; break;
            case 9: v = i % 8 == 7; break;
            }
            b.push_back(v);
        }
    }

    struct Seg { int kind; size_t len; };

    // all sequences of length 1..maxlen over an alphabet of n symbols, shortest first
    template <typename F>
    inline void sequences(size_t n, size_t maxlen, F f, size_t minlen = 1)
    {
        for (size_t l = minlen; l <= maxlen; ++l) {
            std::vector<size_t> s(l, 0);
            for (;;) {
                f(s);
                size_t i = l;
                while (i > 0 && ++s[i - 1] == n) s[--i] = 0;
                if (i == 0) break;
            }
        }
    }

    inline std::vector<Seg> segs(std::vector<int> const& kinds, std::vector<size_t> const& lens)
    {
        std::vector<Seg> r;
        for (size_t l : lens) for (int k : kinds) r.push_back(Seg{k, l});
        return r;
    }

    inline Bits make(std::vector<Seg> const& menu, std::vector<size_t> const& s)
    {
        Bits b;
        for (size_t i : s) add(b, menu[i].kind, menu[i].len);
        return b;
    }

    inline Bits from_int(uint64_t x, size_t len)
    {
        Bits b(len);
        for (size_t i = 0; i < len; ++i) b[i] = (x >> i) & 1;
        return b;
    }

    inline void append(Bits& a, Bits const& b) { a.insert(a.end(), b.begin(), b.end()); }
}
