// C12: excess and leftmost range-minimum excess vs the plain excess sequence
#include "bp.hpp"
using namespace succinct;

static void query(bp_vector const& v, uint64_t a, uint64_t b, uint64_t want, int64_t e, Bits const& bits)
{
    bp_vector::excess_t m = 12345;
    uint64_t got = v.excess_rmq(a, b, m);
    EQ(got, want, "excess_rmq(" << a << "," << b << ") of " << ref::show(bits));
    EQ(int64_t(m), e, "minimum of excess_rmq(" << a << "," << b << ") of " << ref::show(bits));
}

static void verify(bp_vector const& v, Bits const& b, int cls)
{
    size_t n = b.size();
    EQ(v.size(), n, "size");
    std::vector<int32_t> ex(n + 1);
    for (size_t i = 0; i < n; ++i) ex[i + 1] = ex[i] + (b[i] ? 1 : -1);
    for (size_t i = 0; i <= n; ++i) EQ(int64_t(v.excess(i)), int64_t(ex[i]), "excess(" << i << ") of " << ref::show(b));
    if (n <= 24) {
        for (size_t a = 0; a <= n; ++a) for (size_t c = a; c <= n; ++c) EQ(v.excess_rmq(a, c), uint64_t(std::min_element(ex.begin() + long(a), ex.begin() + long(c) + 1) - ex.begin()), "excess_rmq(" << a << "," << c << ") of " << ref::show(b));
    }
    if (cls == 0 || n <= 300) {
        for (size_t a = 0; a <= n; ++a) {
            size_t best = a;
            for (size_t c = a; c <= n; ++c) {
                if (ex[c] < ex[best]) best = c;
                query(v, a, c, best, ex[best], b);
            }
        }
        return;
    }
    // key positions: around structural boundaries, around running minima, regular
    std::vector<uint32_t> keys;
    auto key = [&](int64_t p) { if (p >= 0 && size_t(p) <= n) keys.push_back(uint32_t(p)); };
    size_t unit = cls == 1 || cls == 3 ? 64 : cls == 4 ? 256 : 8192;
    size_t step = unit;
    while (n / step > (cls == 5 ? 140 : 60)) step += unit;
    for (size_t p = 0; p <= n; p += step) { key(int64_t(p)); key(int64_t(p) + 1); key(int64_t(p) - 1); if (cls != 4) key(int64_t(p + unit / 2 - 3)); }
    for (size_t p = 8192; p <= n && cls == 4; p += 8192) { for (int64_t d : {-257, -256, -64, -1, 0, 1, 64, 255, 256, 257}) key(int64_t(p) + d); }
    key(int64_t(n)); key(int64_t(n) - 1); key(1);
    size_t run = 0;
    for (size_t i = 1; i < n && run < 30; ++i) if (ex[i] < ex[i - 1] && ex[i] < ex[i + 1] && (cls != 5 || (i * 2654435761u >> 7) % 64 == 0)) { key(int64_t(i)); key(int64_t(i) + 1); ++run; }
    { size_t m = size_t(std::min_element(ex.begin() + 1, ex.end() - 1) - ex.begin()); key(int64_t(m)); key(int64_t(m) - 1); key(int64_t(m) + 1); }
    std::sort(keys.begin(), keys.end());
    keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
    // leftmost minimum of each segment [key_i, key_{i+1}]
    std::vector<uint32_t> seg(keys.size());
    for (size_t i = 0; i + 1 < keys.size(); ++i) {
        uint32_t best = keys[i];
        for (uint32_t p = keys[i]; p <= keys[i + 1]; ++p) if (ex[p] < ex[best]) best = p;
        seg[i] = best;
    }
    for (size_t i = 0; i < keys.size(); ++i) {
        uint32_t best = keys[i];
        query(v, keys[i], keys[i], best, ex[best], b);
        for (size_t j = i; j + 1 < keys.size(); ++j) {
            if (ex[seg[j]] < ex[best]) best = seg[j];
            query(v, keys[i], keys[j + 1], best, ex[best], b);
        }
    }
}

void explore()
{
    bps::families([&](Bits const& b, int cls) {
        MC_DESC(ref::show(b));
        mc::state(mc::hash_seq(b));
        bp_vector v(b);
        verify(v, b, cls);
    });

    if (mc::section("all pairs over word profiles")) {
        std::vector<std::pair<int, size_t>> m = {{1, 64}, {-1, 64}, {0, 64}, {2, 64}};
        ref::sequences(m.size(), mc::thorough ? 5 : 3, [&](std::vector<size_t> const& s) {
            if (!mc::mine()) return;
            Bits body;
            for (size_t i : s) bps::run(body, m[i].first, m[i].second);
            Bits b = bps::balance(body, 30, 5);
            MC_DESC(ref::show(b));
            mc::state(mc::hash_seq(b));
            bp_vector v(b);
            verify(v, b, 0);
        });
    }

    if (mc::cfg != "asan" && mc::section("more than 2^32 parentheses")) {
        if (mc::mine()) {
            MC_DESC("1000 deep, 2^32 + 2^16 bits of filler, one dip of 500 early and one late");
            bit_vector_builder bb;
            uint64_t half = (uint64_t(1) << 31) + 32768 + 64;
            bb.one_extend(1000);
            for (uint64_t i = 0; i < half / 64; ++i) bb.append_bits(0x5555555555555555ull, 64);
            uint64_t d1 = bb.size() + 500; bb.zero_extend(500); bb.one_extend(500);
            for (uint64_t i = 0; i < half / 64; ++i) bb.append_bits(0x5555555555555555ull, 64);
            uint64_t d2 = bb.size() + 501; bb.zero_extend(501); bb.one_extend(501);
            for (uint64_t i = 0; i < 1000; ++i) bb.append_bits(0x5555555555555555ull, 64);
            uint64_t d3 = bb.size() + 501; bb.zero_extend(501); bb.one_extend(501);
            bb.zero_extend(1000);
            bp_vector v(&bb);
            uint64_t n = v.size();
            OK(n > (uint64_t(1) << 32), "harness");
            EQ(int64_t(v.excess(1000)), int64_t(1000), "excess"); EQ(int64_t(v.excess(n)), int64_t(0), "excess at the end"); EQ(int64_t(v.excess(d2)), int64_t(499), "excess");
            Bits none;
            query(v, 1000, d2 - 1, d1, 500, none);
            query(v, 1000, d2, d2, 499, none);
            query(v, 1000, n - 600, d2, 499, none);
            query(v, d1 + 1, n - 600, d2, 499, none);
            query(v, d2 + 1, n - 600, d3, 499, none);
            query(v, 0, n, 0, 0, none);
            query(v, 1, n, n, 0, none);
            query(v, 1000, d1 - 501, 1000, 1000, none);
            query(v, 5, 100000, 5, 5, none);
        }
    }
}
MC_MAIN
