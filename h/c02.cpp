// C02: bit reads and nearest-bit searches vs the plain sequence
#include "ref.hpp"
#include "succinct/bit_vector.hpp"
using namespace succinct;

static void neighbours(bit_vector const& bv, Bits const& b, size_t lo, size_t hi)
{
    size_t n = b.size();
    // nearest tables
    std::vector<int64_t> p0(n), p1(n), s0(n), s1(n);
    int64_t l0 = -1, l1 = -1;
    for (size_t i = 0; i < n; ++i) { (b[i] ? l1 : l0) = int64_t(i); p0[i] = l0; p1[i] = l1; }
    l0 = l1 = -1;
    for (size_t i = n; i-- > 0;) { (b[i] ? l1 : l0) = int64_t(i); s0[i] = l0; s1[i] = l1; }
    for (size_t i = lo; i < hi; ++i) {
        if (p0[i] >= 0) EQ(bv.predecessor0(i), uint64_t(p0[i]), "position " << i << " of " << ref::show(b));
        if (p1[i] >= 0) EQ(bv.predecessor1(i), uint64_t(p1[i]), "position " << i << " of " << ref::show(b));
        if (s0[i] >= 0) EQ(bv.successor0(i), uint64_t(s0[i]), "position " << i << " of " << ref::show(b));
        if (s1[i] >= 0) EQ(bv.successor1(i), uint64_t(s1[i]), "position " << i << " of " << ref::show(b));
    }
}

static void reads(bit_vector const& bv, Bits const& b, size_t lo, size_t hi, bool all_lens)
{
    size_t n = b.size();
    EQ(bv.size(), n, "size");
    for (size_t i = lo; i < hi; ++i) {
        EQ(bv[i], bool(b[i]), "bit " << i << " of " << ref::show(b));
        uint64_t w = ref::word(b, i);
        EQ(bv.get_word(i), w, "get_word(" << i << ") of " << ref::show(b));
        if (i / 8 + 8 <= (n + 63) / 64 * 8) {
            uint64_t m = (uint64_t(1) << 56) - 1;
            EQ(bv.get_word56(i) & m, w & m, "get_word56(" << i << ") of " << ref::show(b));
        }
        size_t maxl = std::min<size_t>(64, n - i);
        if (all_lens) {
            for (size_t l = 0; l <= maxl; ++l)
                EQ(bv.get_bits(i, l), l == 64 ? w : w & ((uint64_t(1) << l) - 1), "get_bits(" << i << "," << l << ") of " << ref::show(b));
        } else {
            for (size_t l : {size_t(1), size_t(13), 64 - i % 64, 65 - i % 64, size_t(63), maxl}) if (l <= maxl)
                EQ(bv.get_bits(i, l), l == 64 ? w : w & ((uint64_t(1) << l) - 1), "get_bits(" << i << "," << l << ") of " << ref::show(b));
        }
    }
    EQ(bv.get_bits(n, 0), uint64_t(0), "empty read at the end");
}

static void all(Bits const& b, bool all_lens, int via, size_t lo = 0, size_t hi = ~size_t(0))
{
    MC_DESC(ref::show(b));
    mc::state(mc::hash_seq(b));
    if (hi > b.size()) hi = b.size();
    if (via == 0) {
        bit_vector bv(b);
        reads(bv, b, lo, hi, all_lens);
        neighbours(bv, b, lo, hi);
    } else {
        bit_vector_builder bb;
        for (auto x : b) bb.push_back(x);
        bit_vector bv(&bb);
        reads(bv, b, lo, hi, all_lens);
        neighbours(bv, b, lo, hi);
    }
}

void explore()
{
    size_t N = mc::thorough ? 16 : 11;
    if (mc::section("every bit string"))
        for (size_t n = 0; n <= N; ++n) for (uint64_t x = 0; x < uint64_t(1) << n; ++x) for (int via = 0; via < 2; ++via)
            if (mc::mine()) all(ref::from_int(x, n), true, via);

    size_t WN = mc::thorough ? 10 : 7;
    if (mc::section("every window across a word boundary"))
        for (size_t at : {64, 128, 192, 1 << 14}) for (size_t off = 0; off <= WN; ++off) for (int bg = 0; bg < 2; ++bg) for (size_t tail : {0, 1, 57, 70})
            for (uint64_t x = 0; x < uint64_t(1) << WN; ++x) {
                if (at > 1000 && (tail != 57)) continue;
                if (!mc::mine()) continue;
                Bits b(at - off, uint8_t(bg));
                ref::append(b, ref::from_int(x, WN));
                for (size_t i = 0; i < tail; ++i) b.push_back(uint8_t(bg));
                all(b, at <= 192 && x % 8 == 3, int(x & 1), at < 1000 ? 0 : at - 200);
            }

    auto menu = ref::segs({0, 1, 2, 3, 4, 6}, {1, 2, 63, 64, 65, 127, 128, 200});
    if (mc::section("runs"))
        ref::sequences(menu.size(), mc::thorough ? 3 : 2, [&](std::vector<size_t> const& s) {
            if (mc::mine()) all(ref::make(menu, s), s.size() < 2, 0);
        });
    auto menu3 = ref::segs({0, 1, 2}, {1, 63, 64, 65, 130});
    if (mc::section("three or four runs"))
        ref::sequences(menu3.size(), mc::thorough ? 4 : 3, [&](std::vector<size_t> const& s) {
            if (mc::mine()) all(ref::make(menu3, s), false, 1);
        }, 3);

    if (mc::section("one odd bit out anywhere, neighbours many words away"))
        for (size_t n : {64, 65, 127, 128, 129, 640, 1000, 4160, 70000}) for (int v = 0; v < 2; ++v) {
            size_t step = n > 5000 ? 997 : n > 1000 ? 61 : 1;
            for (size_t p = 0; p < n; p += step) {
                if (!mc::mine()) continue;
                Bits b(n, uint8_t(v));
                b[p] ^= 1;
                MC_DESC(ref::show(b));
                mc::state(mc::hash_seq(b));
                bit_vector bv(b);
                for (size_t i = 0; i < n; ++i) {
                    if (i >= p) { EQ(v ? bv.predecessor0(i) : bv.predecessor1(i), uint64_t(p), "position " << i << " of " << ref::show(b)); }
                    if (i <= p) { EQ(v ? bv.successor0(i) : bv.successor1(i), uint64_t(p), "position " << i << " of " << ref::show(b)); }
                    if (i != p) {
                        EQ(v ? bv.predecessor1(i) : bv.predecessor0(i), uint64_t(i), "position " << i << " of " << ref::show(b));
                        EQ(v ? bv.successor1(i) : bv.successor0(i), uint64_t(i), "position " << i << " of " << ref::show(b));
                    }
                }
            }
        }

    if (mc::section("one odd bit at 2^k"))
        for (int k = 10; k <= (mc::thorough ? 26 : 23); ++k) for (int d = -1; d <= 1; ++d) for (int v = 0; v < 2; ++v) {
            if (!mc::mine()) continue;
            uint64_t p = (uint64_t(1) << k) + uint64_t(d), n = 3 * p / 2 + 7;
            MC_DESC(n << " bits all " << v << " but at " << p);
            mc::state(mc::mix(p, uint64_t(v)));
            bit_vector_builder bb(n, v);
            bb.set(p, !v);
            bit_vector bv(&bb);
            for (uint64_t q : {p, p + 1, p + 64, n - 1}) EQ(v ? bv.predecessor0(q) : bv.predecessor1(q), p, "position " << q);
            for (uint64_t q : {uint64_t(0), p / 2, p - 64, p - 1, p}) EQ(v ? bv.successor0(q) : bv.successor1(q), p, "position " << q);
            for (uint64_t q = p - 130; q < p + 66; ++q) {
                EQ(bv[q], bool(v ^ (q == p)), "bit " << q);
                uint64_t w = v ? ~uint64_t(0) : 0;
                if (p >= q && p - q < 64) w ^= uint64_t(1) << (p - q);
                EQ(bv.get_word(q), w, "get_word " << q);
                EQ(bv.get_bits(q, 64), w, "get_bits " << q);
            }
        }

    if (mc::cfg != "asan" && mc::section("more than 2^32 bits")) {
        for (int v = 0; v < 2; ++v) {
            if (!mc::mine()) continue;
            uint64_t B = uint64_t(1) << 32, n = B + 1000;
            MC_DESC(n << " bits of " << v << ", four odd ones");
            bit_vector_builder bb(n, v);
            std::vector<uint64_t> odd = {3, B - 1, B + 64, B + 700};
            for (auto p : odd) bb.set(p, !v);
            bit_vector bv(&bb);
            for (uint64_t q : {uint64_t(0), uint64_t(3), uint64_t(4), B / 2, B - 65, B - 1, B, B + 63, B + 64, B + 65, B + 699, B + 700, B + 999}) {
                uint64_t pr = ~uint64_t(0), su = ~uint64_t(0);
                for (auto p : odd) { if (p <= q) pr = p; if (p >= q && su == ~uint64_t(0)) su = p; }
                if (pr != ~uint64_t(0)) EQ(v ? bv.predecessor0(q) : bv.predecessor1(q), pr, "position " << q);
                if (su != ~uint64_t(0)) EQ(v ? bv.successor0(q) : bv.successor1(q), su, "position " << q);
                EQ(bv[q], bool(v ^ (pr == q)), "bit " << q);
                uint64_t w = 0;
                for (int i = 0; i < 64; ++i) if (q + i < n && (v ^ int(std::count(odd.begin(), odd.end(), q + i)))) w |= uint64_t(1) << i;
                EQ(bv.get_word(q), w, "get_word " << q);
                if (q + 64 <= n) EQ(bv.get_bits(q, 64), w, "get_bits " << q);
                if (q + 33 <= n) EQ(bv.get_bits(q, 33), w & ((uint64_t(1) << 33) - 1), "get_bits33 " << q);
                if (q + 64 <= n) EQ(bv.get_word56(q) & ((uint64_t(1) << 56) - 1), w & ((uint64_t(1) << 56) - 1), "get_word56 " << q);
            }
        }
    }
    if (mc::cfg != "asan" && mc::section("neighbours more than 2^32 bits away"))
        for (int v = 0; v < 2; ++v) {
            if (!mc::mine()) continue;
            uint64_t B = uint64_t(1) << 32, n = B + 9000;
            MC_DESC(n << " bits of " << v << " but two");
            bit_vector_builder bb(n, v);
            bb.set(9, !v); bb.set(B + 8000, !v);
            bit_vector bv(&bb);
            for (uint64_t q : {uint64_t(10), uint64_t(64), B + 10, B + 7999}) {
                EQ(v ? bv.successor0(q) : bv.successor1(q), B + 8000, "successor of " << q);
                EQ(v ? bv.predecessor0(q) : bv.predecessor1(q), uint64_t(9), "predecessor of " << q);
            }
        }
}
MC_MAIN
