// C06: position directories darray1 / darray0 / darray64 vs the list of positions
#include "ref.hpp"
#include <functional>
#include "succinct/darray.hpp"
#include "succinct/darray64.hpp"
using namespace succinct;

template <class D>
static void verify(D const& d, bit_vector const& bv, std::vector<uint64_t> const& pos, const char* name)
{
    EQ(d.num_positions(), pos.size(), name << " count");
    for (size_t k = 0; k < pos.size(); ++k) EQ(d.select(bv, k), pos[k], name << " select(" << k << ")");
}

static void both(bit_vector const& bv, std::vector<uint64_t> const& ones, std::vector<uint64_t> const& zeros)
{
    darray1 d1(bv); verify(d1, bv, ones, "ones");
    darray0 d0(bv); verify(d0, bv, zeros, "zeros");
}

static void from_bits(Bits const& b)
{
    MC_DESC(ref::show(b));
    mc::state(mc::hash_seq(b));
    bit_vector bv(b);
    std::vector<uint64_t> o, z;
    for (size_t i = 0; i < b.size(); ++i) (b[i] ? o : z).push_back(i);
    both(bv, o, z);
}

// positions with given gaps; the directory of the ones, and of the zeros of the complement
static void from_positions(std::vector<uint64_t> const& pos, uint64_t n, bool full)
{
    mc::state(mc::hash_seq(pos, n));
    bit_vector_builder b1(n, 0), b0(n, 1);
    for (auto p : pos) { b1.set(p, 1); b0.set(p, 0); }
    bit_vector v1(&b1), v0(&b0);
    { darray1 d(v1); verify(d, v1, pos, "ones"); }
    { darray0 d(v0); verify(d, v0, pos, "zeros of the complement"); }
    if (full) {
        std::vector<uint64_t> rest;
        size_t k = 0;
        for (uint64_t i = 0; i < n; ++i) { if (k < pos.size() && pos[k] == i) ++k; else rest.push_back(i); }
        { darray0 d(v1); verify(d, v1, rest, "zeros"); }
        { darray1 d(v0); verify(d, v0, rest, "ones of the complement"); }
    }
}

static void verify64(darray64 const& d, std::vector<uint64_t> const& pos)
{
    EQ(d.num_ones(), pos.size(), "count");
    EQ(d.bits().size(), pos.empty() ? 0 : pos.back() + 1, "bits");
    uint64_t n = d.bits().size(), k = 0;
    for (uint64_t i = 0; i < n; ++i) {
        bool one = k < pos.size() && pos[k] == i;
        EQ(d.bits()[i], one, "bit " << i);
        k += one;
    }
    for (size_t i = 0; i < pos.size(); ++i) EQ(d.select(i), pos[i], "select(" << i << ") of " << pos.size());
}

static void d64(std::vector<uint64_t> const& skips)
{
    darray64::builder b;
    std::vector<uint64_t> pos;
    uint64_t at = 0;
    for (auto s : skips) {
        if (s || pos.size() % 2) b.append1(s); else b.append1();
        at += s; pos.push_back(at); ++at;
    }
    mc::state(mc::hash_seq(skips));
    darray64 d(&b);
    verify64(d, pos);
}

void explore()
{
    size_t N = mc::thorough ? 16 : 12;
    if (mc::section("every bit string"))
        for (size_t n = 0; n <= N; ++n) for (uint64_t x = 0; x < uint64_t(1) << n; ++x)
            if (mc::mine()) from_bits(ref::from_int(x, n));

    if (mc::section("patterns at every length"))
        for (int k = 0; k < 10; ++k) for (size_t n = 1; n <= 2300; n += (n < 200 || mc::thorough) ? 1 : n % 64 > 61 || n % 64 < 3 ? 1 : 13) {
            if (!mc::mine()) continue;
            Bits b; ref::add(b, k, n); from_bits(b);
        }

    auto menu = ref::segs({0, 1, 2, 3}, {1, 64, 65, 1000, 1024, 2048, 66000});
    if (mc::section("runs"))
        ref::sequences(menu.size(), 2, [&](std::vector<size_t> const& s) { if (mc::mine()) from_bits(ref::make(menu, s)); });
    auto menu3 = ref::segs({0, 1, 2, 7}, {33, 1024, 65600});
    if (mc::section("three runs"))
        ref::sequences(menu3.size(), 3, [&](std::vector<size_t> const& s) { if (mc::mine()) from_bits(ref::make(menu3, s)); }, 3);

    // one block of `cnt` ones spanning exactly `span`, the wide gap before the g-th
    if (mc::section("block span at the dense/sparse threshold"))
        for (uint64_t pre : {0, 1, 63, 64, 100}) for (uint64_t cnt : {2, 31, 32, 33, 64, 65, 1023, 1024, 1025, 1056}) for (int64_t ds = -3; ds <= 3; ++ds) {
            std::vector<uint64_t> gs = {1, 2, cnt / 2, cnt - 1};
            for (uint64_t g : {31, 32, 33, 63, 64, 65, 1022, 1023, 1024}) if (g < cnt) gs.push_back(g);
            for (uint64_t g : gs) for (int tail = 0; tail < 2; ++tail) {
                if (!g || g >= cnt) continue;
                if (!mc::mine()) continue;
                uint64_t span = uint64_t(65536 + ds);      // distance between the first and the last
                std::vector<uint64_t> pos;
                uint64_t blk = std::min<uint64_t>(cnt, 1024);
                uint64_t gap = span - (blk - 1);           // extra distance
                uint64_t at = pre;
                for (uint64_t i = 0; i < cnt; ++i) { if (i == g) at += gap; pos.push_back(at++); }
                if (tail) for (int i = 0; i < 1100; ++i) { pos.push_back(at); at += 3; }
                MC_DESC(cnt << " positions from " << pre << " spanning " << span << " with the gap before the " << g << "-th, tail " << tail);
                from_positions(pos, at + 5, ds == 0 && pre == 1);
            }
        }

    // several blocks of 1024, each dense / evenly spread below / at the threshold / far apart
    if (mc::section("mixed blocks"))
        ref::sequences(6, mc::thorough ? 5 : 3, [&](std::vector<size_t> const& s) {
            for (uint64_t last : {1024, 7}) {
                if (!mc::mine()) continue;
                std::vector<uint64_t> pos;
                uint64_t at = 11;
                std::ostringstream nm;
                for (size_t bi = 0; bi < s.size(); ++bi) {
                    uint64_t cnt = bi + 1 == s.size() ? last : 1024;
                    for (uint64_t i = 0; i < cnt; ++i) {
                        pos.push_back(at);
                        switch (s[bi]) {
                        case 0: at += 1; break;
                        case 1: at += 64; break;                       // 65472: dense
                        case 2: at += i < 63 ? 65 : 64; break;         // span 65535: the widest dense block
                        case 3: at += i < 64 ? 65 : 64; break;         // span 65536: the narrowest sparse block
                        case 4: at += i % 32 == 31 ? 3000 : 1; break;  // sparse
                        case 5: at += i == 1022 ? 400000 : 2; break;   // one far last element
                        }
                    }
                    nm << s[bi];
                }
                MC_DESC("blocks " << nm.str() << " last of " << last);
                from_positions(pos, at + 3, s.size() == 1);
            }
        });

    if (mc::section("many blocks"))
        for (int kind = 0; kind < 6; ++kind) for (uint64_t blocks : {60, 70, 130}) {
            if (!mc::mine()) continue;
            if (blocks > 70 && mc::cfg == "asan" && !mc::thorough) continue;
            std::vector<uint64_t> pos;
            uint64_t at = 0;
            for (uint64_t i = 0; i < blocks * 1024 + 5; ++i) {
                pos.push_back(at);
                uint64_t bl = i / 1024;
                switch (kind) {
                case 0: at += 1; break;
                case 1: at += 70; break;
                case 2: at += bl % 2 ? 1 : 80; break;
                case 3: at += bl % 3 == 1 ? 100 : 2; break;
                case 4: at += i % 1024 == 1023 ? 100000 : 1; break;
                case 5: at += bl < blocks / 2 ? 100 : 1; break;
                }
            }
            MC_DESC(blocks << " blocks of kind " << kind);
            from_positions(pos, at + 1, false);
        }

    if (mc::section("more than 2^16 sparse blocks' worth of overflow")) {
        if (mc::mine()) {
            std::vector<uint64_t> pos;
            for (uint64_t i = 0; i < 300 * 1024; ++i) pos.push_back(i * 66 + i / 1000);
            MC_DESC("307200 positions at distance 66");
            from_positions(pos, pos.back() + 1, false);
        }
    }

    // two positions far apart
    if (mc::section("far positions"))
        for (int k = 16; k <= 26; ++k) for (int d = -1; d <= 1; ++d) for (int extra = 0; extra < 3; ++extra) {
            if (mc::cfg == "asan" && k > 23) continue;
            if (!mc::mine()) continue;
            uint64_t g = (uint64_t(1) << k) + uint64_t(int64_t(d));
            MC_DESC("gap of " << g << " extra " << extra);
            if (extra == 0) from_positions({0, g}, g + 1, false);
            if (extra == 1) from_positions({3, 4, 4 + g}, g + 70, false);
            if (extra == 2) { std::vector<uint64_t> p; for (uint64_t i = 0; i < 1024; ++i) p.push_back(i); for (uint64_t i = 0; i < 40; ++i) p.push_back(g + 1024 + 2 * i); from_positions(p, p.back() + 1, false); }
        }

    if (mc::cfg != "asan" && mc::section("more than 2^32 bits"))
        for (int kind = 0; kind < 2; ++kind) {
            if (!mc::mine()) continue;
            uint64_t B = uint64_t(1) << 32;
            std::vector<uint64_t> pos;
            if (kind == 0) pos = {1, B - 1, B, B + 1, B + 70000};
            else { for (uint64_t i = 0; i < 1024; ++i) pos.push_back(i); for (uint64_t i = 0; i < 1500; ++i) pos.push_back(B - 700 + i * 2); }
            MC_DESC(pos.size() << " positions around 2^32");
            uint64_t n = pos.back() + 1;
            mc::state(mc::hash_seq(pos));
            { bit_vector_builder b(n, 0); for (auto p : pos) b.set(p, 1); bit_vector v(&b); darray1 d(v); verify(d, v, pos, "ones"); }
            { bit_vector_builder b(n, 1); for (auto p : pos) b.set(p, 0); bit_vector v(&b); darray0 d(v); verify(d, v, pos, "zeros"); }
        }

    if (mc::cfg == "popcnt" && mc::section("more than 2^32 positions"))
        for (int kind = 0; kind < 2; ++kind) {
            if (!mc::mine()) continue;
            uint64_t B = uint64_t(1) << 32, n = B + 5000;
            MC_DESC(n << " positions in a row, one missing at 1000");
            mc::state(mc::mix(n, uint64_t(kind)));
            bit_vector_builder b(n + 1, !kind); b.set(1000, kind);
            bit_vector v(&b);
            auto probe = [&](std::function<uint64_t(uint64_t)> const& sel) {
                for (uint64_t c : {uint64_t(1000), B / 2, B - 1000, B, n}) for (uint64_t k = c - 1000; k < c + 1100 && k < n; ++k) EQ(sel(k), k + (k >= 1000), "select(" << k << ")");
                for (uint64_t k = 0; k < n; k += 100003) EQ(sel(k), k + (k >= 1000), "select(" << k << ")");
            };
            if (kind == 0) { darray1 d(v); EQ(d.num_positions(), n, "ones"); probe([&](uint64_t k) { return d.select(v, k); }); }
            else { darray0 d(v); EQ(d.num_positions(), n, "zeros"); probe([&](uint64_t k) { return d.select(v, k); }); }
        }

    // ---- darray64
    if (mc::section("darray64: every short sequence of skips")) {
        std::vector<uint64_t> sk = {0, 1, 2, 31, 32, 62, 63};
        ref::sequences(sk.size(), mc::thorough ? 6 : 5, [&](std::vector<size_t> const& s) {
            if (!mc::mine()) return;
            std::vector<uint64_t> v; for (size_t i : s) v.push_back(sk[i]);
            if (mc::want_desc) { std::ostringstream os; for (auto x : v) os << x << " "; mc::desc("skips " + os.str()); }
            d64(v);
        }, 0);
    }
    if (mc::section("darray64: runs of skips")) {
        std::vector<std::pair<uint64_t, size_t>> m;
        for (uint64_t s : {0, 1, 37, 62, 63}) for (size_t c : {1, 63, 64, 65, 960, 1024, 2000}) m.push_back({s, c});
        ref::sequences(m.size(), 2, [&](std::vector<size_t> const& s) {
            if (!mc::mine()) return;
            std::vector<uint64_t> v; for (size_t i : s) v.insert(v.end(), m[i].second, m[i].first);
            MC_DESC(v.size() << " ones, skips " << v.front() << ".." << v.back());
            d64(v);
        });
        // the widest block there is, at every alignment
        for (size_t pre = 0; pre < 64; ++pre) for (uint64_t c : {1, 2, 1024}) {
            if (!mc::mine()) continue;
            MC_DESC("first skip " << pre << ", " << c << " ones adjacent, then 2100 skips of 63");
            std::vector<uint64_t> v; v.push_back(pre); v.insert(v.end(), c - 1, 0); v.insert(v.end(), 2100, 63); v.insert(v.end(), 70, 1);
            d64(v);
        }
        for (size_t n : {10000, 70000, 140000}) for (uint64_t sk : {0, 1, 63, 64}) {
            if (!mc::mine()) continue;
            MC_DESC(n << " ones, skip " << sk << " (64: cyclic)");
            std::vector<uint64_t> v; for (size_t i = 0; i < n; ++i) v.push_back(sk == 64 ? i * 7 % 64 : sk);
            d64(v);
        }
    }
    if (mc::cfg != "asan" && mc::section("darray64: more than 2^32 bits")) {
        if (mc::mine()) {
            MC_DESC("2^26 + 5000 ones at distance 64");
            darray64::builder b;
            uint64_t n = (uint64_t(1) << 26) + 5000;
            for (uint64_t i = 0; i < n; ++i) b.append1(63);
            darray64 d(&b);
            EQ(d.num_ones(), n, "count"); EQ(d.bits().size(), n * 64, "bits");
            for (uint64_t i = n - 10000; i < n; ++i) EQ(d.select(i), 64 * i + 63, "select");
            for (uint64_t i = 0; i < n; i += 1021) EQ(d.select(i), 64 * i + 63, "select");
        }
    }
}
MC_MAIN
