// C13: leftmost range minimum over arrays, any comparator, both construction paths
#include "arr.hpp"
#include <set>
#include "succinct/cartesian_tree.hpp"
using namespace succinct;

struct ByKey {             // strict weak ordering that is not total: compares v / d only
    uint64_t d;
    ByKey(uint64_t d_ = 2) : d(d_) {}
    bool operator()(uint64_t a, uint64_t b) const { return a / d < b / d; }
};

template <class Cmp>
static void verify(cartesian_tree const& t, Vals const& v, Cmp const& cmp, bool all, const char* how)
{
    size_t n = v.size();
    EQ(t.size(), n, how << " size of " << arrs::show(v));
    if (all) {
        for (size_t a = 0; a < n; ++a) {
            size_t best = a;
            for (size_t b = a; b < n; ++b) {
                if (cmp(v[b], v[best])) best = b;
                EQ(t.rmq(a, b), uint64_t(best), how << " rmq(" << a << "," << b << ") of " << arrs::show(v));
            }
        }
        return;
    }
    std::vector<uint32_t> k = arrs::keys(v, 60);
    std::vector<uint32_t> seg(k.size());
    for (size_t i = 0; i + 1 < k.size(); ++i) {
        uint32_t best = k[i];
        for (uint32_t p = k[i]; p <= k[i + 1]; ++p) if (cmp(v[p], v[best])) best = p;
        seg[i] = best;
    }
    for (size_t i = 0; i < k.size(); ++i) {
        uint32_t best = k[i];
        EQ(t.rmq(k[i], k[i]), uint64_t(k[i]), how << " single of " << arrs::show(v));
        for (size_t j = i; j + 1 < k.size(); ++j) {
            if (cmp(v[seg[j]], v[best])) best = seg[j];
            EQ(t.rmq(k[i], k[j + 1]), uint64_t(best), how << " rmq(" << k[i] << "," << k[j + 1] << ") of " << arrs::show(v));
        }
    }
}

void explore()
{
    if (mc::section("empty"))
        if (mc::mine()) {
            cartesian_tree t((Vals()));
            EQ(t.size(), uint64_t(0), "size");
            cartesian_tree::builder<uint64_t> b;
            cartesian_tree u(&b);
            EQ(u.size(), uint64_t(0), "size");
        }
    arrs::families([&](Vals const& v, bool all) {
        MC_DESC(arrs::show(v));
        mc::state(mc::hash_seq(v));
        { cartesian_tree t(v); verify(t, v, std::less<uint64_t>(), all, "default order"); }
        { cartesian_tree t(v, std::greater<uint64_t>()); verify(t, v, std::greater<uint64_t>(), all, "greater"); }
        if (v.size() < 200 || !all) {
            ByKey c(3);
            cartesian_tree t(v, c); verify(t, v, c, all, "partial key");
        }
        {
            cartesian_tree::builder<uint64_t> b(v.size() % 3 == 0 ? 0 : v.size() % 3 == 1 ? v.size() : v.size() / 2);
            for (auto x : v) b.push_back(x, std::less<uint64_t>());
            cartesian_tree t(&b);
            verify(t, v, std::less<uint64_t>(), all, "builder");
        }
    });
    if (mc::cfg != "asan" && mc::section("more than a million elements"))
        for (int kind = 0; kind < 9; ++kind) for (size_t n : {1200000, 2200000}) {
            if (!mc::mine()) continue;
            Vals v; arrs::seg(v, kind, n, 0);
            MC_DESC(arrs::show(v));
            mc::state(mc::hash_seq(v));
            { cartesian_tree t(v); verify(t, v, std::less<uint64_t>(), false, "default order"); }
            cartesian_tree::builder<uint64_t> b(kind % 2 ? n : 0);
            for (auto x : v) b.push_back(x, std::greater<uint64_t>());
            cartesian_tree t(&b);
            verify(t, v, std::greater<uint64_t>(), false, "builder, greater");
        }
    if (mc::cfg == "popcnt" && mc::section("more than 2^32 elements"))
        if (mc::mine()) {
            const uint64_t B = uint64_t(1) << 32, n = B + 300000;
            MC_DESC(n << " elements: descending teeth of 64 with nine dips");
            const std::vector<std::pair<uint64_t, int>> dips = {{1000, 7}, {70000, 5}, {B / 2 - 1, 6}, {B / 2 + 3, 5}, {B - 1, 4}, {B, 4}, {B + 64, 8}, {B + 100000, 3}, {n - 2, 9}};
            cartesian_tree::builder<char> b(n);
            size_t d = 0;
            for (uint64_t i = 0; i < n; ++i) {
                char v = char(10 + 63 - i % 64);
                if (d < dips.size() && dips[d].first == i) v = char(dips[d++].second);
                b.push_back(v, std::less<char>());
            }
            cartesian_tree t(&b);
            EQ(t.size(), n, "size");
            std::set<uint64_t> k = {0, 1, 62, 63, 64, 127, 5000, B / 2, B / 2 + 63, B - 64, B - 65, B - 4096, B + 63, B + 20000, n - 70, n - 1};
            for (auto q : dips) for (int e = -1; e <= 1; ++e) k.insert(q.first + uint64_t(int64_t(e)));
            for (uint64_t a : k) for (uint64_t e : k) {
                if (a > e) continue;
                uint64_t best = a / 64 * 64 + 63; int val = 99;
                if (best > e) best = e;
                for (auto q : dips) if (q.first >= a && q.first <= e && q.second < val) { best = q.first; val = q.second; }
                EQ(t.rmq(a, e), best, "rmq(" << a << "," << e << ")");
            }
        }
    if (mc::section("other element types"))
        ref::sequences(4, mc::thorough ? 6 : 5, [&](std::vector<size_t> const& s) {
            if (!mc::mine()) return;
            static const char* str[] = {"b", "", "abc", "ab"};
            static const int64_t num[] = {0, -1, INT64_MIN, INT64_MAX};
            static const double dbl[] = {0.0, -1.5, 1e300, -1e300};
            std::vector<std::string> a; std::vector<int64_t> b; std::vector<double> c; std::vector<int8_t> d;
            Vals ra, rb, rc;
            static const uint64_t ka[] = {3, 0, 2, 1}, kb[] = {2, 1, 0, 3}, kc[] = {2, 1, 3, 0};
            for (size_t x : s) { a.push_back(str[x]); b.push_back(num[x]); c.push_back(dbl[x]); d.push_back(int8_t(int(x) * 40 - 100)); ra.push_back(ka[x]); rb.push_back(kb[x]); rc.push_back(kc[x]); }
            { cartesian_tree t(a); verify(t, ra, std::less<uint64_t>(), true, "strings"); }
            { cartesian_tree t(b); verify(t, rb, std::less<uint64_t>(), true, "signed"); }
            { cartesian_tree t(b, std::greater<int64_t>()); verify(t, rb, std::greater<uint64_t>(), true, "signed, greater"); }
            { cartesian_tree t(c); verify(t, rc, std::less<uint64_t>(), true, "doubles"); }
            { cartesian_tree t(d); verify(t, Vals(s.begin(), s.end()), std::less<uint64_t>(), true, "bytes"); }
        });
}
MC_MAIN
