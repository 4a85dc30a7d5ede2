// C25: how much memory one query looks at, whatever the size and content.  Every load and store of the library is
// counted (distinct 64-byte lines outside the query's own stack) and compared with the bound of its design.
#include "ref.hpp"
#include "bp.hpp"
#include "zoo.hpp"
#include <cmath>
#include <functional>
using namespace succinct;
namespace cost { void begin(bool work); uint64_t end(); uint64_t end_work(); }

static std::string g_what;
static bool g_show = getenv("MC_COSTS") != 0;
struct Worst { double ratio; uint64_t got; double bound; std::string what; };
static std::map<std::string, Worst> g_worst;
static uint64_t g_sink;
static FILE* g_build = g_show ? fopen((std::string(getenv("MC_COSTS")) + "build").c_str(), "a") : 0;
static bool g_judge;
static void judge(const char* op, uint64_t got, uint64_t work, double bound, double elements, uint64_t arg)
{
    if (!g_judge) return;
    double wb = 32 * bound + 16 * elements;
    if (g_show) { Worst& w = g_worst[std::string("work ") + op]; double r = double(work) / wb; if (r > w.ratio) w = Worst{r, work, wb, g_what + " at " + std::to_string(arg)}; }
    // nor does it look at the same ones over and over
    if (double(work) > wb) OK(double(work) <= wb, op << "(" << arg << ") on " << g_what << " makes " << work << " memory accesses, bound " << 32 * bound);
    ++mc::checks;
    if (g_show) { Worst& w = g_worst[op]; double r = double(got) / bound; if (r > w.ratio) w = Worst{r, got, bound, g_what + " at " + std::to_string(arg)}; }
    if (double(got) > bound) OK(double(got) <= bound, op << "(" << arg << ") on " << g_what << " touches " << got << " lines of memory, bound " << bound);
    mc::outcome(mc::mix(got, uint64_t(op[0]) * 256 + uint64_t(op[1])));
}
#define COST(op, bound, arg, expr) COSTN(op, bound, 0, arg, expr)
#define COSTN(op, bound, elements, arg, expr) do { cost::begin(false); uint64_t v_ = uint64_t(expr); uint64_t c_ = cost::end(); g_sink += v_; judge(op, c_, cost::end_work(), double(bound), double(elements), arg); } while (0)
static double lg(double x) { return x < 2 ? 1 : std::log2(x); }

// the k-th one and the like: a directory group of 1024 positions is scanned at most over 65536 bits
static const double DIR = 16 + 1024 / 8 + 2;

struct Index {                  // positions of the ones and zeros, for the reference
    std::vector<uint32_t> one, zero; std::vector<uint32_t> rank;
};
static std::vector<size_t> places(size_t n, size_t lim)
{
    std::vector<size_t> p;
    if (!n) return p;
    size_t step = n > lim ? n / lim : 1;
    for (size_t i = 0; i < n; i += step) p.push_back(i);
    for (size_t k = 512; k < n; k *= 4) for (int d = -1; d <= 1; ++d) p.push_back(k + size_t(d));
    p.push_back(n - 1);
    return p;
}
static bool tool_on()
{
#ifdef MC_COUNT
    return true;
#else
    return false;
#endif
}

static void bit_cost(Bits const& b)
{
    size_t n = b.size();
    Index ix;
    for (size_t i = 0; i < n; ++i) (b[i] ? ix.one : ix.zero).push_back(uint32_t(i));
    std::vector<size_t> ps = places(n, 40);
    auto near = [](std::vector<uint32_t> const& v, size_t p, bool up) -> int64_t {
        std::vector<uint32_t>::const_iterator i = std::lower_bound(v.begin(), v.end(), uint32_t(p));
        if (up) return i == v.end() ? -1 : int64_t(*i) - int64_t(p);
        if (i != v.end() && *i == p) return 0;
        return i == v.begin() ? -1 : int64_t(p) - int64_t(*(i - 1));
    };
    {
        bit_vector v(b);
        COST("bit_vector::size", 2, 0, v.size());
        for (size_t p : ps) {
            COST("bit_vector::operator[]", 6, p, v[p]);
            COST("bit_vector::get_word", 6, p, v.get_word(p));
            COST("bit_vector::get_bits", 6, p, v.get_bits(p, std::min<size_t>(64, n - p)));
            int64_t g;
            if ((g = near(ix.one, p, true)) >= 0) COST("bit_vector::successor1", 8 + g / 400, p, v.successor1(p));
            if ((g = near(ix.one, p, false)) >= 0) COST("bit_vector::predecessor1", 8 + g / 400, p, v.predecessor1(p));
            if ((g = near(ix.zero, p, true)) >= 0) COST("bit_vector::successor0", 8 + g / 400, p, v.successor0(p));
            if ((g = near(ix.zero, p, false)) >= 0) COST("bit_vector::predecessor0", 8 + g / 400, p, v.predecessor0(p));
            {
                COST("bit_vector::enumerator", 8, p, ([&] { bit_vector::enumerator e(v, p); return e.position(); })());
                bit_vector::enumerator e(v, p);
                for (size_t i = p; i < n && i < p + 3; ++i) COST("enumerator::next", 8, p, e.next());
                if (p + 67 <= n) COST("enumerator::take", 8, p, e.take(64));
            }
            if ((g = near(ix.one, p, true)) >= 0) {
                bit_vector::enumerator e(v, p);
                COST("enumerator::skip_zeros", 8 + g / 400, p, e.skip_zeros());
                bit_vector::unary_enumerator u(v, p);
                COST("unary_enumerator::next", 8 + g / 400, p, u.next());
            }
            size_t r = size_t(std::lower_bound(ix.one.begin(), ix.one.end(), uint32_t(p)) - ix.one.begin());
            for (size_t k : {size_t(0), size_t(5), size_t(300)}) if (r + k < ix.one.size()) {
                bit_vector::unary_enumerator u(v, p), w(v, p);
                size_t s = ix.one[r + k] - p;
                COST("unary_enumerator::skip", 8 + s / 400, p, (u.skip(k), u.position()));
                COST("unary_enumerator::skip_no_move", 8 + s / 400, p, w.skip_no_move(k));
            }
            r = p - r;
            for (size_t k : {size_t(0), size_t(5), size_t(300)}) if (r + k < ix.zero.size()) {
                bit_vector::unary_enumerator u(v, p);
                COST("unary_enumerator::skip0", 8 + (ix.zero[r + k] - p) / 400, p, (u.skip0(k), u.position()));
            }
        }
        darray1 d1(v); darray0 d0(v);
        for (size_t k : places(ix.one.size(), 60)) COST("darray1::select", DIR, k, d1.select(v, k));
        for (size_t k : places(ix.zero.size(), 60)) COST("darray0::select", DIR, k, d0.select(v, k));
    }
    for (int h = 0; h < 4; ++h) {
        rs_bit_vector v(b, h & 1, h >> 1 & 1);
        COST("rs_bit_vector::num_ones", 4, 0, v.num_ones());
        for (size_t p : ps) { COST("rs_bit_vector::rank", 10, p, v.rank(p)); COST("rs_bit_vector::rank0", 10, p, v.rank0(p)); }
        COST("rs_bit_vector::rank", 10, n, v.rank(n));
        auto sel = [&](std::vector<uint32_t> const& at, size_t k, bool hinted) {
            double blocks = double(n) / 512 + 2;
            if (hinted) {      // what a kilobit of the same kind spans
                size_t c = k / 1024 * 1024;
                blocks = double((c + 2048 < at.size() ? at[c + 2048] : n) - (c >= 1024 ? at[c - 1024] : 0)) / 512 + 2;
            }
            return 12 + 1.5 * lg(blocks);
        };
        for (size_t k : places(ix.one.size(), 80)) COST(h & 1 ? "rs_bit_vector::select with hints" : "rs_bit_vector::select", sel(ix.one, k, h & 1), k, v.select(k));
        for (size_t k : places(ix.zero.size(), 80)) COST(h & 2 ? "rs_bit_vector::select0 with hints" : "rs_bit_vector::select0", sel(ix.zero, k, h & 2), k, v.select0(k));
    }
}
template <class V> static void ef_queries(elias_fano const& e, V const& v, uint64_t n)
{
    size_t m = v.size();
    double l = m && n / m ? std::floor(std::log2(double(n / m))) : 0;
    uint64_t unit = uint64_t(1) << unsigned(l);
    COST("elias_fano::num_ones", 4, 0, e.num_ones());
    auto group = [&](uint64_t x) {      // values that share the high part with x
        uint64_t a = x / unit * unit;
        typename V::const_iterator i = std::lower_bound(v.begin(), v.end(), a), j = a + unit < a ? v.end() : std::lower_bound(i, v.end(), a + unit);
        return double(j - i);
    };
    for (size_t k : places(m, 60)) {
        COST("elias_fano::select", DIR + 6, k, e.select(k));
        double gap = k ? double(v[k] - v[k - 1]) / double(unit) / 400 : 0;
        COST("elias_fano::delta", DIR + 12 + gap, k, e.delta(k));
        if (k + 1 < m) COST("elias_fano::select_range", DIR + 12 + double(v[k + 1] - v[k]) / double(unit) / 400, k, e.select_range(k).second);
        COST("elias_fano::select_enumerator", DIR + 10, k, ([&] { elias_fano::select_enumerator s(e, k); return s.next(); })());
        // equal neighbours of the answer too: the next scan is over the values that share the high part
        for (int d = -1; d <= 1; ++d) {
            uint64_t p = v[k] + uint64_t(int64_t(d));
            if (p >= n || (d < 0 && !v[k])) continue;
            double c = DIR + 16 + group(p) * (1 + l) / 400;
            COSTN("elias_fano::rank", c, group(p), p, e.rank(p));
            COSTN("elias_fano::operator[]", 2 * c, 2 * group(p), p, e[p]);
            if (p >= v[0]) COSTN("elias_fano::predecessor1", 2 * c + group(p + 1) * (1 + l) / 400, 2 * group(p) + group(p + 1), p, e.predecessor1(p));
            if (p <= v[m - 1]) COSTN("elias_fano::successor1", 2 * c, 2 * group(p), p, e.successor1(p));
        }
    }
    if (m) {    // a whole scan
        cost::begin(true);
        elias_fano::select_enumerator s(e, 0);
        for (size_t i = 0; i < m; ++i) g_sink += s.next();
        uint64_t w = cost::end_work();
        ++mc::checks;
        OK(!g_judge || double(w) <= 2000 + 64 * double(m) + double(n / unit), "a scan of " << m << " values of " << g_what << " makes " << w << " memory accesses");
    }
}
static void ef_cost(std::vector<uint64_t> const& v, uint64_t n)
{
    elias_fano::elias_fano_builder b(n, v.size());
    for (uint64_t x : v) b.push_back(x);
    elias_fano e(&b);
    ef_queries(e, v, n);
}
template <class L> static void list_scan(L const& t, size_t n)
{
    for (size_t k : places(n, 8)) {
        COST("forward_enumerator", DIR + 40, k, ([&] { forward_enumerator<L> e(t, k); return e.next(); })());
        cost::begin(true);
        forward_enumerator<L> e(t, k);
        for (size_t i = k; i < n; ++i) g_sink += e.next();
        uint64_t w = cost::end_work();
        ++mc::checks;
        OK(!g_judge || double(w) <= 2000 + 100 * double(n - k) + 80 * 2, "enumerating " << n - k << " values of " << g_what << " makes " << w << " memory accesses");
    }
}
static void int_cost(Vals const& v, bool big_sum)
{
    size_t n = v.size();
    // the longest code sets how far apart neighbours in a row of high bits are
    { gamma_vector t(v); for (size_t k : places(n, 80)) COST("gamma_vector::operator[]", DIR + 12, k, t[k]); list_scan(t, n); }
    { gamma_bit_vector t(v); for (size_t k : places(n, 80)) COST("gamma_bit_vector::operator[]", DIR + 12, k, t[k]); list_scan(t, n); }
    { elias_fano_compressed_list t(v); for (size_t k : places(n, 80)) COST("elias_fano_compressed_list::operator[]", DIR + 24, k, t[k]); }
    if (!big_sum) {
        elias_fano_list t(v);
        double sum = 1; for (uint64_t x : v) sum += double(x);
        double unit = n && sum / double(n) >= 1 ? std::pow(2, std::floor(std::log2(sum / double(n)))) : 1;
        for (size_t k : places(n, 80)) COST("elias_fano_list::operator[]", DIR + 24 + double(v[k]) / unit / 400, k, t[k]);
    }
    { Vals w(v); for (uint64_t& x : w) x %= 16; nibble_vector t(w); for (size_t k : places(n, 80)) COST("nibble_vector::operator[]", 5, k, t[k]); }
    { mapper::mappable_vector<uint64_t> t(v); for (size_t k : places(n, 80)) COST("mappable_vector::operator[]", 5, k, t[k]); }
    { darray64::builder b; for (uint64_t x : v) b.append1(x % 64); darray64 t(&b); for (size_t k : places(n, 80)) COST("darray64::select", DIR, k, t.select(k)); }
}
static void bp_cost(Bits const& p)
{
    size_t n = p.size();
    double B = 32 + 3 * lg(double(n));
    std::vector<size_t> ps = places(n, 60);
    for (int h = 0; h < 4; ++h) {
        bp_vector t(p, h & 1, h >> 1 & 1);
        if (h == 1 || h == 2) { for (size_t k : places(n / 2, 20)) { COST("bp_vector::select", B, k, t.select(k)); COST("bp_vector::select0", B, k, t.select0(k)); } continue; }
        for (size_t i : ps) {
            size_t a = i, z = i;
            while (a < n && !p[a]) ++a;
            while (z < n && p[z]) ++z;
            if (a < n) COST("bp_vector::find_close", B, a, t.find_close(a));
            if (a < n && a > 0 && t.find_close(0) != a && t.excess(a) > 0) COST("bp_vector::enclose", B, a, t.enclose(a));
            if (z < n) COST("bp_vector::find_open", B, z, t.find_open(z));
            COST("bp_vector::excess", 12, i, t.excess(i));
        }
        for (size_t i = 0; i < ps.size(); i += 3) for (size_t j = 0; j < ps.size(); j += 2) if (ps[i] <= ps[j]) COST("bp_vector::excess_rmq", B, ps[i], t.excess_rmq(ps[i], ps[j]));
    }
}
static void tree_cost(Vals const& v)
{
    size_t n = v.size();
    cartesian_tree t(v);
    topk_vector<mapper::mappable_vector<uint64_t>> q(v);
    double B = 48 + 5 * lg(double(n));
    std::vector<size_t> ps = places(n, 24);
    std::sort(ps.begin(), ps.end());
    for (size_t a : ps) for (size_t b : ps) if (a <= b) {
        COST("cartesian_tree::rmq", B, a, t.rmq(a, b));
        if ((a + b) % 7 == 0) for (size_t k : {size_t(1), size_t(10)}) COST("topk_vector::topk", (2 * double(k) + 2) * B, a, q.topk(a, b, k).size());
    }
}
// mapping looks at the sizes only, not at the data, unless asked to warm up; so do size_of and swap
struct Mapping {
    std::vector<zoo::Content> const& cs;
    template <class Z> void operator()(size_t zi)
    {
        for (size_t ci = 0; ci < cs.size(); ++ci) {
            if (!mc::mine()) continue;
            g_what = std::string(Z::name()) + " number " + std::to_string(ci);
            if (mc::want_desc) mc::desc(g_what);
            mc::state(mc::mix(zi, ci));
            typedef typename Z::type T;
            std::unique_ptr<char[]> m(new char[sizeof(T)]);
            T* t = Z::make(m.get(), cs[ci], 0);
            std::ostringstream fn; fn << mc::scratch << "/c" << getpid();
            std::string img = zoo::frozen(*t, fn.str());
            std::vector<uint64_t> buf(img.size() / 8 + 8);
            memcpy(&buf[0], img.data(), img.size());
            T a, b;
            COST("map", 80, img.size(), mapper::map(a, (const char*)&buf[0]));
            COST("map over", 80, img.size(), mapper::map(a, (const char*)&buf[0]));
            COST("size_of", 80, img.size(), mapper::size_of(a));
            COST("swap", 80, img.size(), (a.swap(b), 0));
            t->~T();
        }
    }
};
// building four times as much takes at most about four times the work
static void linear(const char* who, std::function<void(size_t)> f, size_t n)
{
    g_what = who;
    uint64_t w[2];
    for (int i = 0; i < 2; ++i) { cost::begin(true); f(i ? 4 * n : n); w[i] = cost::end_work(); }
    ++mc::checks;
    if (g_show) fprintf(g_build, "%-40s %zu: %llu, %zu: %llu\n", who, n, (unsigned long long)w[0], 4 * n, (unsigned long long)w[1]), fflush(g_build);
    if (w[1] > 6 * w[0] + 100000) OK(w[1] <= 6 * w[0] + 100000, who << " makes " << w[0] << " memory accesses for " << n << " elements, " << w[1] << " for " << 4 * n);
}
static void stats()
{
    if (!g_show) return;
    FILE* f = fopen((std::string(getenv("MC_COSTS")) + std::to_string(getpid())).c_str(), "w");
    for (auto const& w : g_worst) fprintf(f, "%-40s %5.2f  %llu of %.1f  %s\n", w.first.c_str(), w.second.ratio, (unsigned long long)w.second.got, w.second.bound, w.second.what.c_str());
    fclose(f);
}

static Bits shape(int s, size_t n)
{
    Bits b;
    if (s < 10) { ref::add(b, s, n); return b; }
    b.assign(n, 0);
    switch (s) {
    case 10: for (size_t i = 0; i < n; i += 1000) b[i] = 1; break;
    case 11: for (size_t i = 0; i < n; ++i) b[i] = i % 1000 != 0; break;
    case 12: for (size_t i = 0; i < n; i += 20000) b[i] = 1; break;
    case 13: for (size_t i = 0; i < n; ++i) b[i] = i % 20000 != 0; break;
    case 14: for (size_t i = n / 2; i < n; ++i) b[i] = 1; break;
    case 15: for (size_t i = 0; i < n / 2; ++i) b[i] = 1; break;
    case 16: for (size_t i = 0; i < n; ++i) b[i] = i / 70000 % 2; break;
    case 17: b[n / 3] = 1; break;
    case 18: b.assign(n, 1); b[n / 3] = 0; break;
    case 19: for (size_t i = 0; i < n; ++i) b[i] = i < 3000 || i + 3000 > n; break;
    case 20: for (size_t i = 0; i < n; ++i) b[i] = !(i < 3000 || i + 3000 > n); break;
    case 21: for (size_t i = 0; i < n; ++i) b[i] = i % 62 == 0; break;      // 1024 ones just below 65536 apart
    case 22: for (size_t i = 0; i < n; ++i) b[i] = i % 64 == 0; break;
    case 23: for (size_t i = 0; i < n; ++i) b[i] = i % 63000 < 1000; break;
    case 24: for (size_t i = 0; i < n; ++i) b[i] = i % 63000 >= 1000; break;
    }
    return b;
}
void explore()
{
    bool T = mc::thorough;
    if (!tool_on()) return;
    // what the library computes once per process (tables built on first use) is not part of a query
    for (size_t n : {size_t(40), size_t(300000)}) {
        for (int s : {1, 10, 13, 16}) bit_cost(shape(s, n));
        for (uint64_t l : {0, 7}) { std::vector<uint64_t> v; for (uint64_t i = 0; i < n; ++i) v.push_back(i << l); ef_cost(v, n << l); }
        { Vals v(n); for (size_t i = 0; i < n; ++i) v[i] = i % 100; int_cost(v, false); tree_cost(v); }
        { Bits b; bps::run(b, 1, n); bps::run(b, 0, n); bps::run(b, -1, n); bp_cost(b); }
    }
    g_judge = true;
    if (mc::section("bit structures"))
        for (int z = T ? 26 : 24; z >= 8; z -= z > 20 ? 2 : 4) for (int s = 0; s < 25; ++s) for (int odd = 0; odd < 2; ++odd) {
            if (z >= 24 && (odd || s % 3) && !T) continue;
            if (!mc::mine()) continue;
            size_t n = (size_t(1) << z) - (odd ? 37 : 0);
            g_what = "shape " + std::to_string(s) + " of " + std::to_string(n) + " bits";
            MC_DESC(g_what); mc::state(mc::mix(uint64_t(s), n));
            bit_cost(shape(s, n));
        }
    if (mc::section("every sequence of runs")) {
        auto menu = ref::segs({0, 1, 2, 3, 4, 7}, {100, 2000, 70000, 300000});
        ref::sequences(menu.size(), 2, [&](std::vector<size_t> const& s) {
            if (!mc::mine()) return;
            Bits b = ref::make(menu, s);
            g_what = ref::show(b).substr(0, 60); MC_DESC(g_what); mc::state(mc::hash_seq(s));
            bit_cost(b);
        });
    }
    if (mc::section("Elias-Fano"))
        for (uint64_t l : {0, 1, 4, 7, 13, 31, 32, 43}) for (uint64_t m : {uint64_t(10), uint64_t(3000), uint64_t(T ? 4000000 : 500000)}) for (int s = 0; s < 6; ++s) {
            if (!mc::mine()) continue;
            uint64_t n = m << l;
            std::vector<uint64_t> v;
            for (uint64_t i = 0; i < m; ++i) v.push_back(
                s == 0 ? i << l : s == 1 ? (i < m / 2 ? i : n - m + i) : s == 2 ? (i << l) / 2 : s == 3 ? (i / 100 * 100) << l : s == 4 ? (i < m / 2 ? i : (i << l) | (((uint64_t(1) << l) - 1) & (i * 77))) : n - m + i);
            g_what = std::to_string(m) + " values below " + std::to_string(n) + ", shape " + std::to_string(s);
            MC_DESC(g_what); mc::state(mc::mix(mc::mix(l, m), uint64_t(s)));
            ef_cost(v, n);
        }
    if (mc::section("integer sequences")) {
        std::vector<uint64_t> m = {0, 1, 2, 7, 63, 1000, (1 << 20) - 1, uint64_t(1) << 31, uint64_t(1) << 40};
        for (uint64_t x : m) for (uint64_t y : m) for (size_t n : {3000, T ? 1000000 : 150000}) for (size_t p : {2, 1000, 100000}) {
            if (!mc::mine()) continue;
            Vals v(n, x);
            for (size_t i = 0; i < n; ++i) if (p == 100000 ? i > n / 2 : i % p == 0) v[i] = y;
            g_what = std::to_string(n) + " values " + std::to_string(x) + " and " + std::to_string(y) + " period " + std::to_string(p);
            MC_DESC(g_what); mc::state(mc::hash_seq(v));
            int_cost(v, false);
        }
    }
    if (mc::section("parentheses"))
        for (int z = 26; z >= 8; z -= z > 20 ? 2 : 3) for (int s = 0; s < 12; ++s) {
            if (z > 24 && !T && s != 0 && s != 5 && s != 7) continue;
            if (!mc::mine()) continue;
            size_t n = size_t(1) << z;
            Bits b;
            switch (s) {
            case 0: bps::run(b, 1, n / 2); break;
            case 1: bps::run(b, 0, n); break;
            case 2: bps::run(b, 3, n); break;
            case 3: bps::run(b, 4, n); break;
            case 4: bps::run(b, 5, n / 2); break;
            case 5: b.push_back(1); bps::run(b, 0, n); break;
            case 6: bps::run(b, 1, n / 4); bps::run(b, 0, n / 2); break;
            case 7: bps::run(b, 1, n / 3); bps::run(b, 6, n / 3); break;
            case 8: for (size_t d = 1; b.size() < n; d = d * 3 % 40009 + 1) { bps::run(b, 1, d); bps::run(b, 0, 2 * (d % 50)); bps::run(b, -1, d); } break;
            case 9: bps::run(b, 1, 5000); for (size_t i = 0; b.size() < n; ++i) { bps::run(b, i % 2 ? 1 : -1, 4900); bps::run(b, 0, 3000); } break;
            case 10: { uint64_t r = 88172645463325252ull; int64_t e = 0; while (b.size() < n) { r ^= r << 13; r ^= r >> 7; r ^= r << 17; bool o = (r & 3) < 2 || e == 0; b.push_back(o); e += o ? 1 : -1; } } break;
            case 11: b.push_back(1); bps::run(b, 1, n / 8); bps::run(b, -1, n / 8); bps::run(b, 0, n / 2); bps::run(b, 1, n / 8); bps::run(b, -1, n / 8); break;
            }
            int64_t e = 0; for (uint8_t x : b) e += x ? 1 : -1;
            while (e-- > 0) b.push_back(0);
            g_what = "profile " + std::to_string(s) + " of " + std::to_string(b.size()) + " parentheses";
            MC_DESC(g_what); mc::state(mc::mix(uint64_t(z), uint64_t(s)));
            bp_cost(b);
        }
    if (mc::section("arrays"))
        for (size_t n : {size_t(100), size_t(5000), size_t(200000), size_t(T ? 8000000 : 1500000)}) for (int s = 0; s < 8; ++s) {
            if (!mc::mine()) continue;
            Vals v(n);
            for (size_t i = 0; i < n; ++i) v[i] = s == 0 ? i : s == 1 ? n - i : s == 2 ? 7 : s == 3 ? i * 2654435761u % 1000003 : s == 4 ? (i < n / 2 ? n - i : i) : s == 5 ? (i < n / 2 ? i : n - i) : s == 6 ? i % 1000 : i / 1000 % 2;
            g_what = "array shape " + std::to_string(s) + " of " + std::to_string(n);
            MC_DESC(g_what); mc::state(mc::mix(n, uint64_t(s)));
            tree_cost(v);
        }
    std::vector<zoo::Content> cs;
    for (size_t n : {0, 3, 3000, 300000}) {
        zoo::Content c;
        for (size_t i = 0; i < n; ++i) { c.bits.push_back(i % 3 == 0); c.ints.push_back(i % 11); }
        bps::run(c.parens, 0, n); bps::run(c.parens, 1, n); bps::run(c.parens, -1, n);
        if (n % 2) { c.parens.clear(); bps::run(c.parens, 0, n - 1); }
        cs.push_back(c);
    }
    if (mc::section("mapping, size and swap")) { Mapping m{cs}; zoo::each(m); }
    if (mc::section("building")) {
        auto lin = [&](const char* who, std::function<void(size_t)> f, size_t n) { if (!mc::mine()) return; MC_DESC(who); mc::state(mc::hash_seq(std::string(who))); linear(who, f, n); };
        lin("bit_vector_builder::push_back", [](size_t n) { bit_vector_builder b; for (size_t i = 0; i < n; ++i) b.push_back(i % 3); }, 2000000);
        lin("bit_vector_builder::append_bits", [](size_t n) { bit_vector_builder b; for (size_t i = 0; i < n; ++i) b.append_bits(i % 128, 7); }, 500000);
        lin("bit_vector_builder::reverse", [](size_t n) { bit_vector_builder b; b.one_extend(n); b.reverse(); }, 1000000);
        lin("bit_vector_builder::set", [](size_t n) { bit_vector_builder b(n); for (size_t i = 0; i < n; ++i) b.set(i, i % 3); }, 200000);
        lin("bit_vector_builder::set_bits", [](size_t n) { bit_vector_builder b(n * 7); for (size_t i = 0; i < n; ++i) b.set_bits(i * 7, i % 128, 7); }, 100000);
        for (int s : {0, 1, 2, 10, 14, 16}) {
            auto bb = [s](bit_vector_builder& b, size_t n) { for (size_t i = 0; i < n; ++i) b.push_back(s == 0 ? 0 : s == 1 ? 1 : s == 2 ? i % 2 : s == 10 ? i % 1000 == 0 : s == 14 ? i > n / 2 : i / 70000 % 2); };
            std::string w = " of shape " + std::to_string(s);
            lin(("rs_bit_vector" + w).c_str(), [bb](size_t n) { bit_vector_builder b; bb(b, n); rs_bit_vector v(&b, true, true); }, 200000);
            lin(("directories" + w).c_str(), [bb](size_t n) { bit_vector_builder b; bb(b, n); bit_vector v(&b); darray1 d1(v); darray0 d0(v); }, 200000);
            lin(("elias_fano" + w).c_str(), [bb](size_t n) { bit_vector_builder b; bb(b, n); elias_fano v(&b); }, 200000);
        }
        for (int s = 0; s < 3; ++s) {
            auto pp = [s](bit_vector_builder& b, size_t n) { if (s == 0) { b.one_extend(n / 2); b.zero_extend(n / 2); } else if (s == 1) for (size_t i = 0; i < n; ++i) b.push_back(i % 2 == 0); else for (size_t i = 0; i < n; ++i) b.push_back(i % 64 < 32); };
            lin(("bp_vector of profile " + std::to_string(s)).c_str(), [pp](size_t n) { bit_vector_builder b; pp(b, n); bp_vector v(&b, true, true); }, 400000);
        }
        for (int s = 0; s < 4; ++s) {
            auto vv = [s](size_t n) { Vals v; for (size_t i = 0; i < n; ++i) v.push_back(s == 0 ? i : s == 1 ? n - i : s == 2 ? i % 3 : i * 2654435761u % 1000); return v; };
            std::string w = " of array shape " + std::to_string(s);
            lin(("cartesian_tree" + w).c_str(), [vv](size_t n) { Vals v = vv(n); cartesian_tree t(v); }, 50000);
            lin(("topk_vector" + w).c_str(), [vv](size_t n) { Vals v = vv(n); topk_vector<elias_fano_compressed_list> t(v); }, 50000);
            lin(("gamma_vector" + w).c_str(), [vv](size_t n) { Vals v = vv(n); gamma_vector t(v); }, 50000);
            lin(("gamma_bit_vector" + w).c_str(), [vv](size_t n) { Vals v = vv(n); gamma_bit_vector t(v); }, 50000);
            lin(("elias_fano_list" + w).c_str(), [vv](size_t n) { Vals v = vv(n); elias_fano_list t(v); }, 50000);
            lin(("elias_fano_compressed_list" + w).c_str(), [vv](size_t n) { Vals v = vv(n); elias_fano_compressed_list t(v); }, 50000);
            lin(("nibble_vector" + w).c_str(), [vv](size_t n) { Vals v = vv(n); for (uint64_t& x : v) x %= 16; nibble_vector t(v); }, 50000);
        }
        lin("darray64", [](size_t n) { darray64::builder b; for (size_t i = 0; i < n; ++i) b.append1(i % 64); darray64 t(&b); }, 50000);
    }
    stats();
}
MC_MAIN
