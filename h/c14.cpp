// C14: top-k of ranges vs sorting, over several value containers; enumerator usage histories
#include "arr.hpp"
#include <boost/iterator/iterator_facade.hpp>
#include <boost/range/iterator_range.hpp>
#include "succinct/topk_vector.hpp"
#include "succinct/elias_fano_compressed_list.hpp"
#include "succinct/elias_fano_list.hpp"
#include "succinct/gamma_vector.hpp"
#include "succinct/gamma_bit_vector.hpp"
using namespace succinct;
typedef std::vector<std::pair<uint64_t, uint64_t>> Ranked;   // value, position

static Ranked sorted(Vals const& v, size_t a, size_t b)
{
    Ranked r;
    for (size_t i = a; i <= b; ++i) r.push_back({v[i], i});
    std::stable_sort(r.begin(), r.end(), [](std::pair<uint64_t, uint64_t> const& x, std::pair<uint64_t, uint64_t> const& y) { return x.first > y.first || (x.first == y.first && x.second < y.second); });
    return r;
}

template <class T> static void topk_is(T const& t, Vals const& v, size_t a, size_t b, size_t k, Ranked const& r)
{
    typename T::entry_vector_type e = t.topk(a, b, k);
    EQ(e.size(), std::min(k, b - a + 1), "topk(" << a << "," << b << "," << k << ") size, " << arrs::show(v));
    for (size_t i = 0; i < e.size(); ++i) {
        EQ(uint64_t(boost::get<0>(e[i])), r[i].first, "topk(" << a << "," << b << "," << k << ")[" << i << "] value, " << arrs::show(v));
        EQ(uint64_t(boost::get<1>(e[i])), r[i].second, "topk(" << a << "," << b << "," << k << ")[" << i << "] position, " << arrs::show(v));
    }
}

template <class E> static void next_is(E& e, Ranked const& r, size_t i, std::string const& how)
{
    bool more = e.next();
    EQ(more, i < r.size(), how << " next at " << i);
    if (more) {
        EQ(uint64_t(boost::get<0>(e.value())), r[i].first, how << " value " << i);
        EQ(uint64_t(boost::get<1>(e.value())), r[i].second, how << " position " << i);
    }
}

template <class V> static void one(Vals const& v, bool all)
{
    typedef topk_vector<V> T;
    T t(v);
    size_t n = v.size();
    EQ(t.size(), n, "size");
    for (size_t i = 0; i < n; i += n > 5000 ? 101 : 1) EQ(uint64_t(t[i]), v[i], "value " << i << " of " << arrs::show(v));
    std::vector<uint32_t> k;
    if (all && n <= 12) for (size_t i = 0; i < n; ++i) k.push_back(uint32_t(i));
    else k = arrs::keys(v, n <= 300 ? 12 : 5);
    size_t cap = mc::thorough ? 14 : n > 300 ? 6 : 9;
    if (k.size() > cap && n > 12) { std::vector<uint32_t> s; for (size_t i = 0; i < k.size(); i += k.size() / cap + 1) s.push_back(k[i]); s.push_back(k.back()); k.swap(s); }
    typename T::enumerator reused;
    for (size_t i = 0; i < k.size(); ++i) for (size_t j = i; j < k.size(); ++j) {
        size_t a = k[i], b = k[j], len = b - a + 1;
        Ranked r = sorted(v, a, b);
        if (n <= 12) for (size_t q = 0; q <= len + 2; ++q) topk_is(t, v, a, b, q, r);
        else for (size_t q : {size_t(0), size_t(1), size_t(2), size_t(10), len - 1, len, len + 1, ~size_t(0)}) if (q <= 300 || len < 400) topk_is(t, v, a, b, q, r);
        // the whole range once, then the end
        t.get_topk_enumerator(a, b, reused);
        size_t lim = std::min<size_t>(len + 2, n <= 300 ? 400 : 60);
        std::ostringstream how;
        how << "enumerator(" << a << "," << b << ") of " << arrs::show(v);
        for (size_t q = 0; q < lim; ++q) next_is(reused, r, q, how.str());
    }
}

// more elements than memory would hold: teeth of 64 rising values with some peaks, computed on demand
namespace teeth {
    const uint64_t B = uint64_t(1) << 32, n = B + 300000;
    static const std::pair<uint64_t, int> peaks[] = {{1000, 90}, {70000, 100}, {B / 2 - 1, 95}, {B / 2 + 3, 100}, {B - 1, 110}, {B, 110}, {B + 500, 100}, {B + 70001, 100}, {B + 100000, 120}, {n - 2, 80}};
    static int at(uint64_t i)
    {
        if (i % 64 > 62 || i > 999) for (auto const& q : peaks) if (q.first == i) return q.second;
        return int(i % 64);
    }
    struct iter : boost::iterator_facade<iter, int, boost::random_access_traversal_tag, int> {
        uint64_t i; size_t p;
        iter(uint64_t i_ = 0) : i(i_), p(0) {}
        int dereference() const { return p < 10 && peaks[p].first == i ? peaks[p].second : int(i % 64); }
        void increment() { if (p < 10 && peaks[p].first == i) ++p; ++i; }
        void decrement() { --i; p = 0; while (p < 10 && peaks[p].first < i) ++p; }
        void advance(std::ptrdiff_t k) { i += uint64_t(k); p = 0; while (p < 10 && peaks[p].first < i) ++p; }
        std::ptrdiff_t distance_to(iter const& o) const { return std::ptrdiff_t(o.i - i); }
        bool equal(iter const& o) const { return i == o.i; }
    };
    struct values {
        typedef int value_type;
        uint64_t len;
        values() : len(0) {}
        template <class R> values(R const& r) : len(uint64_t(boost::size(r))) {}
        int operator[](uint64_t i) const { return at(i); }
        uint64_t size() const { return len; }
        void swap(values& o) { std::swap(len, o.len); }
        template <class V> void map(V& visit) { visit(len, "len"); }
    };
    static void check()
    {
        topk_vector<values> t(boost::iterator_range<iter>(iter(0), iter(n)));
        EQ(t.size(), n, "size");
        std::vector<uint64_t> k = {0, 63, 999, 1000, 1001, 69999, 70000, B / 2 - 1, B / 2, B / 2 + 3, B - 70, B - 1, B, B + 1, B + 64, B + 70001, B + 99999, n - 65, n - 2, n - 1};
        for (uint64_t a : k) for (uint64_t b : k) {
            if (a > b) continue;
            // the peaks of the range, then the tops of its teeth (none of which is a peak: their last places are 1000 % 64 and so on)
            std::vector<std::pair<int, uint64_t>> r;
            auto take = [&](uint64_t i) { r.push_back({-at(i), i}); };
            for (auto const& q : peaks) if (q.first >= a && q.first <= b) take(q.first);
            const size_t want = 40;
            if (b - a < 20000) { r.clear(); for (uint64_t i = a; i <= b; ++i) take(i); }
            else for (uint64_t i = a / 64 * 64 + 63, c = 0; c < want + 12 && i <= b; i += 64, ++c) if (at(i) < 64) take(i);
            std::sort(r.begin(), r.end());
            auto e = t.topk(a, b, want);
            EQ(e.size(), size_t(std::min<uint64_t>(want, b - a + 1)), "topk(" << a << "," << b << "," << want << ") size");
            for (size_t i = 0; i < e.size(); ++i) {
                EQ(boost::get<0>(e[i]), -r[i].first, "topk(" << a << "," << b << "," << want << ")[" << i << "] value");
                EQ(boost::get<1>(e[i]), r[i].second, "topk(" << a << "," << b << "," << want << ")[" << i << "] position");
            }
        }
    }
}

template <class V> static void family(std::string const& who)
{
    if (mc::section((who + ": every short array").c_str())) {
        ref::sequences(3, mc::thorough ? 7 : 5, [&](std::vector<size_t> const& s) {
            if (!mc::mine()) return;
            Vals v(s.begin(), s.end());
            MC_DESC(arrs::show(v));
            mc::state(mc::hash_seq(v));
            one<V>(v, true);
        });
    }
    if (mc::section((who + ": shapes").c_str()))
        for (int kind = 0; kind < 9; ++kind) for (size_t n : {8, 31, 32, 33, 64, 127, 128, 130, 250, 4200}) {
            if (!mc::mine()) continue;
            Vals v; arrs::seg(v, kind, n, 0);
            MC_DESC(arrs::show(v));
            mc::state(mc::hash_seq(v));
            one<V>(v, false);
        }
}

// histories over two enumerators: start on a range, advance, copy, swap, clear
static void histories(size_t depth)
{
    typedef topk_vector<mapper::mappable_vector<uint64_t>> T;
    static const Vals va = {3, 1, 3, 0, 2, 3, 1}, vb = {0, 5};
    struct M { Ranked r; size_t i; bool has; };   // has: r[i - 1] is the current entry
    enum { OPS = 11 };
    ref::sequences(OPS, depth, [&](std::vector<size_t> const& s) {
        if (!mc::mine()) return;
        if (mc::want_desc) { std::ostringstream os; for (auto x : s) os << x << " "; mc::desc("operations " + os.str()); }
        T ta(va), tb(vb);
        T::enumerator e[2];
        M m[2] = {{Ranked(), 0, false}, {Ranked(), 0, false}};
        std::ostringstream how;
        how << "history";
        for (size_t o : s) {
            how << " " << o;
            int q = int(o % 2);
            switch (o) {
            case 0: case 1: next_is(e[q], m[q].r, m[q].i, how.str()); m[q].has = m[q].i < m[q].r.size(); if (m[q].has) m[q].i++; break;
            case 2: case 3: ta.get_topk_enumerator(1, 5, e[q]); m[q] = M{sorted(va, 1, 5), 0, false}; break;
            case 4: tb.get_topk_enumerator(0, 1, e[0]); m[0] = M{sorted(vb, 0, 1), 0, false}; break;
            case 5: e[1] = ta.get_topk_enumerator(0, 6); m[1] = M{sorted(va, 0, 6), 0, false}; break;
            case 6: e[0].swap(e[1]); std::swap(m[0], m[1]); break;
            case 7: e[1].clear(); m[1] = M{Ranked(), 0, false}; break;
            case 8: e[0] = e[1]; m[0] = m[1]; break;
            case 9: e[1].swap(e[0]); std::swap(m[0], m[1]); break;
            case 10: e[0].clear(); m[0] = M{Ranked(), 0, false}; break;
            }
            for (int w = 0; w < 2; ++w) if (m[w].has) {
                EQ(uint64_t(boost::get<0>(e[w].value())), m[w].r[m[w].i - 1].first, how.str() << ": current value of " << w);
                EQ(uint64_t(boost::get<1>(e[w].value())), m[w].r[m[w].i - 1].second, how.str() << ": current position of " << w);
            }
        }
        mc::state(mc::mix(mc::hash_seq(s), m[0].i * 10 + m[1].i));
        for (int q = 0; q < 2; ++q) {
            how << " drain " << q;
            for (size_t i = m[q].i; i < m[q].r.size() + 1; ++i) next_is(e[q], m[q].r, i, how.str());
        }
    });
}

void explore()
{
    typedef mapper::mappable_vector<uint64_t> V64;
    arrs::families([&](Vals const& v, bool all) {
        MC_DESC(arrs::show(v));
        mc::state(mc::hash_seq(v));
        if (v.size() > 40000) return;
        one<V64>(v, all);
    });
    family<elias_fano_compressed_list>("elias_fano_compressed_list");
    family<elias_fano_list>("elias_fano_list");
    family<gamma_vector>("gamma_vector");
    family<gamma_bit_vector>("gamma_bit_vector");
    family<mapper::mappable_vector<uint32_t>>("32-bit values");

    if (mc::section("extreme values")) {
        std::vector<uint64_t> m = {0, 1, ~uint64_t(0), ~uint64_t(0) - 1, uint64_t(1) << 63, (uint64_t(1) << 63) - 1, uint64_t(1) << 32, (uint64_t(1) << 32) - 1};
        ref::sequences(m.size(), mc::thorough ? 5 : 4, [&](std::vector<size_t> const& s) {
            if (!mc::mine()) return;
            Vals v; for (size_t i : s) v.push_back(m[i]);
            MC_DESC(arrs::show(v));
            mc::state(mc::hash_seq(v));
            one<V64>(v, true);
        });
    }
    if (mc::cfg == "popcnt" && mc::section("more than 2^32 elements"))
        if (mc::mine()) { MC_DESC(teeth::n << " computed values: rising teeth of 64 with ten peaks"); teeth::check(); }
    if (mc::section("every entry of large arrays"))
        for (int kind = 0; kind < 9; ++kind) {
            if (!mc::mine()) continue;
            Vals v; arrs::seg(v, kind, 40000, 0);
            MC_DESC(arrs::show(v));
            mc::state(mc::hash_seq(v));
            topk_vector<V64> t(v);
            Ranked r = sorted(v, 17, v.size() - 3);
            topk_is(t, v, 17, v.size() - 3, ~size_t(0), r);
            topk_is(t, v, 17, v.size() - 3, 12345, r);
        }
    if (mc::section("signed values")) {
        std::vector<int64_t> m = {0, -1, 1, INT64_MIN, INT64_MAX};
        ref::sequences(m.size(), 5, [&](std::vector<size_t> const& s) {
            if (!mc::mine()) return;
            std::vector<int64_t> v; for (size_t i : s) v.push_back(m[i]);
            mc::state(mc::hash_seq(v, 5));
            topk_vector<mapper::mappable_vector<int64_t>> t(v);
            std::vector<std::pair<int64_t, uint64_t>> r;
            for (size_t i = 0; i < v.size(); ++i) r.push_back({v[i], i});
            std::stable_sort(r.begin(), r.end(), [](std::pair<int64_t, uint64_t> const& x, std::pair<int64_t, uint64_t> const& y) { return x.first > y.first; });
            auto e = t.topk(0, v.size() - 1, v.size() + 1);
            EQ(e.size(), r.size(), "size");
            for (size_t i = 0; i < r.size(); ++i) { EQ(boost::get<0>(e[i]), r[i].first, "value " << i); EQ(boost::get<1>(e[i]), r[i].second, "position " << i); }
        });
    }
    if (mc::section("enumerator histories")) histories(mc::thorough ? 6 : 5);
}
MC_MAIN
