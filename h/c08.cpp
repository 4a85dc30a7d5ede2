// C08: Elias-Fano delta, select_range, select_enumerator vs the plain sequence
#include "ef.hpp"
using namespace succinct;

static void verify(elias_fano const& ef, uint64_t n, Vals const& v, const char* how, size_t starts)
{
    size_t m = v.size();
    EQ(ef.num_ones(), m, how << " num_ones " << efs::show(n, v));
    for (size_t k = 0; k < m; ++k) {
        EQ(ef.delta(k), k ? v[k] - v[k - 1] : v[0], how << " delta(" << k << ") of " << efs::show(n, v));
        if (k + 1 < m) {
            std::pair<uint64_t, uint64_t> r = ef.select_range(k);
            EQ(r.first, v[k], how << " select_range(" << k << ") of " << efs::show(n, v));
            EQ(r.second, v[k + 1], how << " select_range(" << k << ") of " << efs::show(n, v));
        }
    }
    if (!m) { elias_fano::select_enumerator e(ef, 0); return; }
    auto scan = [&](size_t s) {
        elias_fano::select_enumerator e(ef, s);
        for (size_t k = s; k < m; ++k) EQ(e.next(), v[k], how << " scan from " << s << " at " << k << " of " << efs::show(n, v));
    };
    if (m <= starts) for (size_t s = 0; s < m; ++s) scan(s);
    else {
        for (size_t s : {size_t(0), size_t(1), size_t(2), size_t(31), size_t(63), size_t(64), size_t(1023), size_t(1024), m / 3, m / 2, m - 65, m - 64, m - 2, m - 1}) if (s < m) scan(s);
    }
    // two scans advanced alternately, one a copy of the other
    elias_fano::select_enumerator a(ef, 0), b(ef, m / 2);
    size_t i = 0, j = m / 2;
    for (size_t k = 0; k < 40; ++k) {
        if (i < m) { EQ(a.next(), v[i], how << " first of two scans at " << i << " of " << efs::show(n, v)); ++i; }
        if (j < m) { EQ(b.next(), v[j], how << " second of two scans at " << j << " of " << efs::show(n, v)); ++j; }
        elias_fano::select_enumerator c = a;
        size_t q = i;
        for (int t = 0; t < 3 && q < m; ++t, ++q) EQ(c.next(), v[q], how << " copied scan at " << q << " of " << efs::show(n, v));
    }
}

void explore()
{
    efs::families([&](uint64_t n, Vals const& v) {
        MC_DESC(efs::show(n, v));
        mc::state(mc::hash_seq(v, n));
        for (int ri = 0; ri < 2; ++ri) {
            elias_fano ef;
            efs::from_builder(ef, n, v, ri);
            verify(ef, n, v, "builder", 300);
        }
        if (n <= 20000 && efs::strict(v)) {
            elias_fano e2;
            efs::from_bits(e2, n, v, false);
            verify(e2, n, v, "bits", 70);
        }
    });
    efs::large([&](uint64_t n, Vals const& v) {
        MC_DESC(efs::show(n, v));
        mc::state(mc::hash_seq(v, n));
        elias_fano ef;
        efs::from_builder(ef, n, v, true);
        verify(ef, n, v, "large", 0);
    });
    if (mc::section("wide gaps in the high bits"))
        for (uint64_t m : {64, 100, 1000, 3000}) for (uint64_t at : {1, 2, 31, 32, 63, 64, 65, 1022, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 2900}) for (uint64_t g : {1, 2, 3, 30}) {
            if (at >= m) continue;
            if (!mc::mine()) continue;
            Vals v;
            for (uint64_t i = 0; i < m; ++i) v.push_back(i >= at ? i + m * g : i);
            uint64_t n = v.back() + 1;
            MC_DESC(efs::show(n, v));
            mc::state(mc::hash_seq(v, n));
            elias_fano ef;
            efs::from_builder(ef, n, v, false);
            verify(ef, n, v, "gap", m > 1000 && at > 63 ? 0 : 3000);
        }
    if (mc::cfg == "popcnt" && mc::section("more than 2^32 low bits"))
        efs::giant([&](elias_fano const& ef, uint64_t m, std::function<uint64_t(uint64_t)> const& val) {
            uint64_t edge = (uint64_t(1) << 32) / 34;
            auto near = [&](uint64_t c) {
                for (uint64_t k = c - 2100; k < c + 2100 && k < m; ++k) {
                    EQ(ef.delta(k), val(k) - val(k - 1), "delta(" << k << ")");
                    if (k + 1 == m) continue;
                    std::pair<uint64_t, uint64_t> r = ef.select_range(k);
                    EQ(r.first, val(k), "select_range(" << k << ")");
                    EQ(r.second, val(k + 1), "select_range(" << k << ")");
                }
            };
            near(m / 2); near(edge); near(edge / 2); near(m);
            for (uint64_t s : {uint64_t(0), edge - 3000000, m - 70000}) {
                elias_fano::select_enumerator e(ef, s);
                for (uint64_t k = s; k < m; ++k) EQ(e.next(), val(k), "scan from " << s << " at " << k);
            }
        });
    if (mc::cfg == "popcnt" && mc::section("more than 2^32 values"))
        efs::many([&](elias_fano const& ef, uint64_t m, uint64_t, std::function<uint64_t(uint64_t)> const& val) {
            const uint64_t B = uint64_t(1) << 32;
            for (uint64_t c : {uint64_t(5000), uint64_t(5000000), B / 2, B, B + 20000, m}) for (uint64_t k = c - 4200; k < c + 4200 && k < m; ++k) {
                EQ(ef.delta(k), val(k) - val(k - 1), "delta(" << k << ")");
                if (k + 1 == m) continue;
                std::pair<uint64_t, uint64_t> r = ef.select_range(k);
                EQ(r.first, val(k), "select_range(" << k << ")");
                EQ(r.second, val(k + 1), "select_range(" << k << ")");
            }
            for (uint64_t s : {uint64_t(0), uint64_t(4990000), B / 2 - 1, B - 20000, B, B + 3, m - 1}) {
                elias_fano::select_enumerator e(ef, s);
                for (uint64_t k = s; k < m && k < s + 120000; ++k) EQ(e.next(), val(k), "scan from " << s << " at " << k);
            }
        });
}
MC_MAIN
