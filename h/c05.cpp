// C05: rank/select of rs_bit_vector vs counting, all hint combinations
#include "ref.hpp"
#include "succinct/rs_bit_vector.hpp"
using namespace succinct;

static void verify(rs_bit_vector const& v, Bits const& b, const char* how)
{
    size_t n = b.size();
    uint64_t r = 0, z = 0;
    EQ(v.size(), n, how);
    for (size_t i = 0; i < n; ++i) {
        EQ(v.rank(i), r, how << " rank(" << i << ") of " << ref::show(b));
        EQ(v.rank0(i), z, how << " rank0(" << i << ") of " << ref::show(b));
        if (b[i]) { EQ(v.select(r), uint64_t(i), how << " select(" << r << ") of " << ref::show(b)); ++r; }
        else { EQ(v.select0(z), uint64_t(i), how << " select0(" << z << ") of " << ref::show(b)); ++z; }
    }
    EQ(v.rank(n), r, how << " rank at the end of " << ref::show(b));
    EQ(v.rank0(n), z, how << " rank0 at the end of " << ref::show(b));
    EQ(v.num_ones(), r, how << " of " << ref::show(b));
    EQ(v.num_zeros(), z, how << " of " << ref::show(b));
}

static const char* HN[] = {"no hints", "select hints", "select0 hints", "both hints"};

static void all(Bits const& b, bool both_paths)
{
    MC_DESC(ref::show(b));
    mc::state(mc::hash_seq(b));
    for (int h = 0; h < 4; ++h) {
        {
            rs_bit_vector v(b, h & 1, h & 2);
            verify(v, b, HN[h]);
        }
        if (both_paths) {
            bit_vector_builder bb;
            for (auto x : b) bb.push_back(x);
            rs_bit_vector v(&bb, h & 1, h & 2);
            verify(v, b, HN[h]);
        }
    }
}

// sampled positions of a huge vector given by the sorted positions of its odd bits
static void sparse(uint64_t n, int bg, std::vector<uint64_t> const& odd, int h)
{
    bit_vector_builder bb(n, bg);
    for (auto p : odd) bb.set(p, !bg);
    rs_bit_vector v(&bb, h & 1, h & 2);
    std::vector<uint64_t> q = {0, 1, n / 2, n - 1, n};
    for (auto p : odd) for (uint64_t d : {uint64_t(-600), uint64_t(-513), uint64_t(-512), uint64_t(-64), uint64_t(-1), uint64_t(0), uint64_t(1), uint64_t(64), uint64_t(512), uint64_t(1024)}) if (p + d <= n) q.push_back(p + d);
    for (int k = 9; k < 33; ++k) for (uint64_t d = 0; d < 3; ++d) if ((uint64_t(1) << k) - 1 + d <= n) q.push_back((uint64_t(1) << k) - 1 + d);
    uint64_t m = odd.size();
    for (auto p : q) {
        uint64_t k = uint64_t(std::lower_bound(odd.begin(), odd.end(), p) - odd.begin());
        uint64_t r1 = bg ? p - k : k, r0 = p - r1;
        EQ(v.rank(p), r1, HN[h] << " rank(" << p << ")");
        EQ(v.rank0(p), r0, HN[h] << " rank0(" << p << ")");
        if (p < n) {
            bool is_odd = k < m && odd[k] == p;
            if (is_odd != bool(bg)) EQ(v.select(r1), p, HN[h] << " select(" << r1 << ")");
            else EQ(v.select0(r0), p, HN[h] << " select0(" << r0 << ")");
        }
    }
    EQ(v.num_ones(), bg ? n - m : m, HN[h] << " num_ones");
    EQ(v.num_zeros(), bg ? m : n - m, HN[h] << " num_zeros");
}

void explore()
{
    size_t N = mc::thorough ? 15 : 11;
    if (mc::section("every bit string"))
        for (size_t n = 0; n <= N; ++n) for (uint64_t x = 0; x < uint64_t(1) << n; ++x)
            if (mc::mine()) all(ref::from_int(x, n), true);

    if (mc::section("every pattern at every length"))
        for (int k = 0; k < 10; ++k) for (size_t n = 1; n <= (mc::thorough ? 4200u : 2200u); n += n < 1100 ? 1 : 7) {
            if (!mc::mine()) continue;
            Bits b; ref::add(b, k, n);
            all(b, n % 2);
        }

    // every way of giving each of 8 sub-blocks a count out of a menu: the packed 9-bit sub-ranks take all carry patterns
    if (mc::section("sub-block counts")) {
        std::vector<size_t> cnt = {0, 1, 32, 63, 64};
        ref::sequences(mc::thorough ? 5 : 3, 8, [&](std::vector<size_t> const& s) {
            for (int pre = 0; pre < 2; ++pre) {
                if (!mc::mine()) continue;
                std::vector<size_t> c3 = {0, 33, 64};
                Bits b;
                ref::add(b, 2, pre ? 512 : 0);
                for (size_t i : s) {
                    size_t c = mc::thorough ? cnt[i] : c3[i];
                    size_t at = b.size();
                    ref::add(b, 0, 64);
                    for (size_t j = 0; j < c; ++j) b[at + (j * 27 + 5) % 64] = 1;
                }
                ref::add(b, 1, 70);
                all(b, false);
            }
        }, 8);
    }

    auto menu = ref::segs({0, 1, 2}, {1, 63, 64, 65, 449, 511, 512, 513, 1023, 1024, 1025, 2049});
    if (mc::section("two runs"))
        ref::sequences(menu.size(), 2, [&](std::vector<size_t> const& s) { if (mc::mine()) all(ref::make(menu, s), true); }, 2);
    auto menu3 = ref::segs({0, 1, 3, 4}, {64, 500, 512, 1024, 1500});
    if (mc::section("three runs"))
        ref::sequences(menu3.size(), 3, [&](std::vector<size_t> const& s) { if (mc::mine()) all(ref::make(menu3, s), false); }, 3);
    auto menu4 = ref::segs({0, 1}, {1, 511, 512, 1024, 4000});
    if (mc::section("more runs"))
        ref::sequences(menu4.size(), mc::thorough ? 5 : 4, [&](std::vector<size_t> const& s) {
            for (size_t i = 1; i < s.size(); ++i) if (menu4[s[i]].kind == menu4[s[i - 1]].kind) return;
            if (mc::mine()) all(ref::make(menu4, s), false);
        }, 4);

    // whole blocks of 512 bits filled to a level: hints that point many blocks back, and hints in consecutive blocks
    if (mc::section("blocks"))
        ref::sequences(5, mc::thorough ? 8 : 6, [&](std::vector<size_t> const& s) {
            if (!mc::mine()) return;
            Bits b;
            for (size_t i : s) {
                size_t reps = i == 3 ? 5 : 1;
                for (size_t r = 0; r < reps; ++r) ref::add(b, i == 0 ? 0 : i == 1 ? 1 : i == 2 ? 2 : i == 3 ? 3 : 4, 512);
            }
            ref::add(b, 1, 3);
            all(b, false);
        }, 4);

    if (mc::section("long vectors"))
        for (int k = 0; k < 10; ++k) for (size_t n : {8191, 8192, 65535, 65536, 65537, 70000, 140000, 600000}) {
            if (!mc::mine()) continue;
            if (n > 200000 && mc::cfg == "asan" && !mc::thorough) continue;
            Bits b; ref::add(b, k, n);
            if (k < 2) for (size_t i = 0; i < n; i += 5003) b[i] ^= 1;
            all(b, false);
        }

    if (mc::section("long runs in long vectors")) {
        auto m = ref::segs({0, 1, 2}, {100, 8192, 70000});
        ref::sequences(m.size(), 3, [&](std::vector<size_t> const& s) { if (mc::mine()) all(ref::make(m, s), false); }, 3);
    }

    if (mc::section("sparse vectors of 2^k bits"))
        for (int k = 17; k <= (mc::thorough ? 30 : 26); ++k) for (int bg = 0; bg < 2; ++bg) for (int h = 0; h < 4; ++h) {
            if (!mc::mine()) continue;
            if (mc::cfg == "asan" && k > 23) continue;
            uint64_t n = (uint64_t(1) << k) + 77;
            MC_DESC(n << " bits of " << bg << " with three odd ones, " << HN[h]);
            mc::state(mc::mix(n, uint64_t(bg * 4 + h)));
            sparse(n, bg, {5, n / 2, n - 70, n - 1}, h);
        }

    if (mc::cfg != "asan" && mc::section("more than 2^32 bits"))
        for (int bg = 0; bg < 2; ++bg) {
            if (!mc::mine()) continue;
            uint64_t B = uint64_t(1) << 32, n = B + 70000;
            MC_DESC(n << " bits of " << bg << " with a few odd ones, no hints and both hints");
            for (int h : {0, 3}) sparse(n, bg, {5, B - 513, B - 1, B, B + 511, B + 6000, n - 1}, h);
        }
}
MC_MAIN
