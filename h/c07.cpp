// C07: Elias-Fano select / rank / membership / neighbours vs the plain sequence
#include "ef.hpp"
using namespace succinct;

static void at(elias_fano const& ef, uint64_t n, Vals const& v, uint64_t p, const char* how)
{
    uint64_t r = uint64_t(std::lower_bound(v.begin(), v.end(), p) - v.begin());
    EQ(ef.rank(p), r, how << " rank(" << p << ") of " << efs::show(n, v));
    if (p >= n) return;
    bool in = r < v.size() && v[r] == p;
    EQ(ef[p], in, how << " [" << p << "] of " << efs::show(n, v));
    uint64_t r1 = uint64_t(std::upper_bound(v.begin(), v.end(), p) - v.begin());
    if (r1) EQ(ef.predecessor1(p), v[r1 - 1], how << " predecessor1(" << p << ") of " << efs::show(n, v));
    if (r < v.size()) EQ(ef.successor1(p), v[r], how << " successor1(" << p << ") of " << efs::show(n, v));
}

static void verify(elias_fano const& ef, uint64_t n, Vals const& v, bool rank_index, const char* how, bool big)
{
    EQ(ef.size(), n, how << " size " << efs::show(n, v));
    EQ(ef.num_ones(), v.size(), how << " num_ones " << efs::show(n, v));
    for (size_t k = 0; k < v.size(); ++k) EQ(ef.select(k), v[k], how << " select(" << k << ") of " << efs::show(n, v));
    if (!rank_index) return;
    if (n <= 3000) { for (uint64_t p = 0; p <= n; ++p) at(ef, n, v, p, how); return; }
    at(ef, n, v, 0, how); at(ef, n, v, n, how); at(ef, n, v, n - 1, how); at(ef, n, v, n / 2, how);
    for (int k = 1; k < 64; ++k) for (uint64_t d = 0; d < 3; ++d) { uint64_t p = (uint64_t(1) << k) - 1 + d; if (p <= n) at(ef, n, v, p, how); }
    size_t step = !big ? 1 : v.size() > 20000 ? 101 : 7;
    for (size_t k = 0; k < v.size(); k += step) {
        at(ef, n, v, v[k], how);
        if (v[k]) at(ef, n, v, v[k] - 1, how);
        at(ef, n, v, v[k] + 1, how);
        if (k + 1 < v.size()) at(ef, n, v, v[k] + (v[k + 1] - v[k]) / 2, how);
    }
}

static void one(uint64_t n, Vals const& v, bool big)
{
    MC_DESC(efs::show(n, v));
    mc::state(mc::hash_seq(v, n));
    for (int ri = 0; ri < 2; ++ri) {
        elias_fano ef;
        efs::from_builder(ef, n, v, ri);
        verify(ef, n, v, ri, ri ? "builder" : "builder without rank index", big);
        if (n <= 20000 && efs::strict(v)) {
            elias_fano e2;
            efs::from_bits(e2, n, v, ri);
            verify(e2, n, v, ri, ri ? "bits" : "bits without rank index", big);
        }
    }
}

void explore()
{
    efs::families([&](uint64_t n, Vals const& v) { one(n, v, false); });
    efs::large([&](uint64_t n, Vals const& v) {
        MC_DESC(efs::show(n, v));
        mc::state(mc::hash_seq(v, n));
        elias_fano ef;
        efs::from_builder(ef, n, v, true);
        // membership and rank scan the values that share their high part: keep those cases to a few probes
        bool flat = v[0] == v[v.size() / 2 - 1];
        if (!flat) verify(ef, n, v, true, "large", true);
        else {
            verify(ef, n, v, false, "large", true);
            for (uint64_t p : {uint64_t(0), v[0] - 1, v[0], v[0] + 1, v.back(), v.back() - 1, n}) at(ef, n, v, p, "large, equal values");
        }
        if (n <= 2000000 && efs::strict(v)) {
            elias_fano e2;
            efs::from_bits(e2, n, v, true);
            verify(e2, n, v, true, "large, bits", true);
        }
    });

    if (mc::section("bit vectors long and sparse"))
        for (int k = 17; k <= (mc::thorough ? 28 : 24); ++k) for (uint64_t m : {1, 2, 5, 1030}) {
            if (mc::cfg == "asan" && k > 21) continue;
            if (!mc::mine()) continue;
            uint64_t n = (uint64_t(1) << k) + 3;
            Vals v;
            for (uint64_t i = 0; i < m; ++i) v.push_back(i == m - 1 ? n - 1 : i * (n / m) + i % 3);
            MC_DESC(efs::show(n, v));
            mc::state(mc::hash_seq(v, n));
            elias_fano ef;
            efs::from_bits(ef, n, v, true);
            verify(ef, n, v, true, "sparse bits", false);
        }
    if (mc::cfg != "asan" && mc::section("more than 2^32 bits")) {
        if (mc::mine()) {
            uint64_t B = uint64_t(1) << 32, n = B + 100;
            Vals v = {1, 64, B / 2, B - 1, B, B + 1, B + 99};
            MC_DESC(efs::show(n, v));
            elias_fano ef;
            efs::from_bits(ef, n, v, true);
            verify(ef, n, v, true, "bits", false);
        }
    }
    if (mc::cfg == "popcnt" && mc::section("more than 2^32 low bits"))
        efs::giant([&](elias_fano const& ef, uint64_t m, std::function<uint64_t(uint64_t)> const& val) {
            uint64_t edge = (uint64_t(1) << 32) / 34;
            auto one = [&](uint64_t k) {
                uint64_t x = val(k), p = k ? val(k - 1) : 0;
                EQ(ef.select(k), x, "select(" << k << ")");
                EQ(ef[x], true, "[" << x << "]");
                EQ(ef.rank(x), k, "rank(" << x << ")"); EQ(ef.rank(x + 1), k + 1, "rank(" << x + 1 << ")");
                EQ(ef.predecessor1(x), x, "predecessor1 of a member"); EQ(ef.successor1(x), x, "successor1 of a member");
                if (k && p + 1 < x) {
                    EQ(ef[x - 1], false, "[" << x - 1 << "]");
                    EQ(ef.predecessor1(x - 1), p, "predecessor1(" << x - 1 << ")");
                    EQ(ef.successor1(p + 1), x, "successor1(" << p + 1 << ")");
                }
            };
            for (uint64_t c : {uint64_t(3000), m / 2, edge / 2, edge, m}) for (uint64_t k = c - 2100; k < c + 2100 && k < m; ++k) one(k);
            for (uint64_t k = 0; k < m; k += 1021) one(k);
        });
    if (mc::cfg == "popcnt" && mc::section("more than 2^32 values"))
        efs::many([&](elias_fano const& ef, uint64_t m, uint64_t n, std::function<uint64_t(uint64_t)> const& val) {
            const uint64_t B = uint64_t(1) << 32;
            auto first = [&](uint64_t x) { uint64_t lo = 0, hi = m; while (lo < hi) { uint64_t mid = lo + (hi - lo) / 2; if (val(mid) < x) lo = mid + 1; else hi = mid; } return lo; };
            auto one = [&](uint64_t k) { EQ(ef.select(k), val(k), "select(" << k << ")"); };
            for (uint64_t c : {uint64_t(2100), uint64_t(5000000), B / 2, B, B + 20000, m}) for (uint64_t k = c - 2100; k < c + 2100 && k < m; ++k) one(k);
            for (uint64_t k = 0; k < m; k += 40961) one(k);
            for (uint64_t c : {uint64_t(0), val(5000000), val(B / 2), val(B), val(B + 20000), val(m - 1), n}) for (uint64_t x = c < 90 ? 0 : c - 90; x < c + 90 && x <= n; ++x) {
                uint64_t r = first(x);
                EQ(ef.rank(x), r, "rank(" << x << ")");
                if (x == n) continue;
                EQ(ef[x], r < m && val(r) == x, "[" << x << "]");
                if (r < m) EQ(ef.successor1(x), val(r), "successor1(" << x << ")");
                if (first(x + 1)) EQ(ef.predecessor1(x), val(first(x + 1) - 1), "predecessor1(" << x << ")");
            }
        });
    if (mc::section("fewer values than announced"))
        for (uint64_t n : {uint64_t(1), uint64_t(10), uint64_t(1000), uint64_t(1) << 40}) for (uint64_t extra : {1, 2, 10, 1000}) for (size_t m = 0; m <= 3; ++m)
            efs::multisets(efs::value_menu(n, false), m, [&](Vals const& v) {
                if (!mc::mine()) return;
                MC_DESC(efs::show(n, v) << " announced " << extra << " more");
                mc::state(mc::mix(extra, mc::hash_seq(v, n)));
                elias_fano ef;
                efs::from_builder(ef, n, v, true, extra);
                verify(ef, n, v, true, "fewer", false);
            });
}
MC_MAIN
