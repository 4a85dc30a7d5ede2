// C20: variable-byte integers
#include "ref.hpp"
#include <deque>
#include "succinct/util.hpp"
#include "succinct/vbyte.hpp"
using namespace succinct;
typedef std::vector<uint64_t> V;

static size_t groups(uint64_t x) { size_t n = 1; while (n < 10 && (x >> (7 * n)) != 0) ++n; return n; }

template <class Buf> static void walk(V const& v, size_t prefix)
{
    Buf b;
    for (size_t i = 0; i < prefix; ++i) b.push_back(i % 2 ? 0xFF : 0x80);
    std::vector<size_t> at;
    for (uint64_t x : v) {
        size_t before = b.size(), g = groups(x);
        at.push_back(before);
        EQ(vbyte_size(x), g, "vbyte_size(" << x << ")");
        EQ(append_vbyte(b, x), g, "append_vbyte(" << x << ") returned");
        EQ(b.size() - before, g, "append_vbyte(" << x << ") bytes");
    }
    for (size_t i = 0; i < prefix; ++i) EQ(unsigned(uint8_t(b[i])), i % 2 ? 0xFFu : 0x80u, "byte " << i << " before the first integer");
    // exactly as many bytes as were written: a decoder that looks further is caught by ASan
    Buf e(b.begin(), b.end());
    size_t pos = prefix;
    for (size_t i = 0; i < v.size(); ++i) {
        size_t x = 0xDEADBEEF;
        EQ(decode_vbyte(e, at[i], x), groups(v[i]), "length of integer " << i << " (" << v[i] << ")");
        EQ(uint64_t(x), v[i], "integer " << i);
        size_t y = ~size_t(0);
        pos += decode_vbyte(e, pos, y);
        EQ(uint64_t(y), v[i], "integer " << i << " of the walk");
    }
    EQ(pos, e.size(), "end of the walk");
}
static void both(V const& v)
{
    mc::state(mc::hash_seq(v));
    if (mc::want_desc) { std::ostringstream os; for (auto x : v) os << x << " "; mc::desc(os.str()); }
    walk<std::vector<uint8_t>>(v, 0);
    walk<std::deque<uint8_t>>(v, 3);
    if (v.size() < 3) walk<std::vector<char>>(v, 1);
}

void explore()
{
    V m;
    for (int k = 0; k < 64; ++k) for (int d = -2; d <= 2; ++d) m.push_back((uint64_t(1) << k) + uint64_t(int64_t(d)));
    for (int k = 1; k <= 9; ++k) for (uint64_t t : {0x7Full, 0x80ull, 0x55ull, 0x2Aull}) { uint64_t x = 0; for (int i = 0; i < k; ++i) x = x << 7 | (t & 0x7F); m.push_back(x); m.push_back(x << 7); m.push_back(x + 1); }
    for (uint64_t x : {0ull, ~0ull, ~0ull - 1, 0x5555555555555555ull, 0xAAAAAAAAAAAAAAAAull, 0x8000000000000001ull}) m.push_back(x);
    std::sort(m.begin(), m.end());
    m.erase(std::unique(m.begin(), m.end()), m.end());
    if (mc::section("every small integer"))
        for (uint64_t c = 0; c < (mc::thorough ? 32768u : 2048u); ++c) {
            if (!mc::mine()) continue;
            V v;
            for (uint64_t i = 0; i < 4096; ++i) v.push_back(c * 4096 + i);
            both(v);
        }
    if (mc::section("every group pattern"))     // each 7-bit group from a menu, up to ten groups
        ref::sequences(4, mc::thorough ? 10 : 9, [&](std::vector<size_t> const& s) {
            static const uint64_t g[] = {0, 1, 0x40, 0x7F};
            uint64_t x = 0;
            for (size_t i = 0; i < s.size(); ++i) x = x << 7 | g[s[i]];
            if (mc::mine()) both(V(1, x));
        });
    if (mc::section("every boundary integer and pair")) {
        if (mc::mine()) both(V());
        for (uint64_t x : m) if (mc::mine()) both(V(1, x));
        for (uint64_t x : m) for (uint64_t y : m) if (mc::mine()) both({x, y});
    }
    if (mc::section("every sequence over a menu")) {
        V s = {0, 1, 127, 128, 16383, 16384, (1ull << 56) - 1, 1ull << 56, (1ull << 63) - 1, 1ull << 63, ~0ull};
        ref::sequences(s.size(), mc::thorough ? 6 : 5, [&](std::vector<size_t> const& q) { if (!mc::mine()) return; V v; for (size_t i : q) v.push_back(s[i]); both(v); }, 3);
    }
    if (mc::section("single bits and runs of bits"))
        for (unsigned i = 0; i < 64; ++i) for (unsigned j = i; j < 64; ++j) {
            if (!mc::mine()) continue;
            V v;
            uint64_t run = 0;
            for (unsigned k = i; k <= j; ++k) run |= uint64_t(1) << k;
            v.push_back(run); v.push_back(~run);
            for (unsigned k = j; k < 64; ++k) v.push_back(uint64_t(1) << i | uint64_t(1) << j | uint64_t(1) << k);
            both(v);
        }
}
MC_MAIN
