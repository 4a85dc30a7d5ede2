// C24: frozen size of every structure against the bound of its design
#include "ref.hpp"
#include <cmath>
#include "zoo.hpp"
using namespace succinct;

static const double C = 40 * 64;        // the constant, in bits
template <class T> static void within(T& t, double bound, const char* who, std::string const& what)
{
    double bits = 8.0 * double(mapper::size_of(t));
    ++mc::checks;
    if (bits > bound + C) OK(bits <= bound + C, who << " of " << what << " takes " << bits << " bits, bound " << bound << " + " << C);
    mc::outcome(mc::mix(uint64_t(bits), uint64_t(who[0])));
}
static double ef_core(double n, double m) { return m == 0 ? n : n < m ? m + n : m * (2 + std::log2(n / m)); }
// high bits of an Elias-Fano encoding: at most three per value
static double ef_high(double n, double m) { return m == 0 ? n : n < m ? m + n : 3 * m; }

static void bits_case(Bits const& b, std::string const& what)
{
    double n = double(b.size()), ones = 0;
    for (uint8_t x : b) ones += x;
    double zeros = n - ones;
    { bit_vector v(b); within(v, n, "bit_vector", what);
      darray1 d1(v); within(d1, 0.5625 * ones + n, "darray1", what); darray0 d0(v); within(d0, 0.5625 * zeros + n, "darray0", what); }
    for (int h = 0; h < 4; ++h) { rs_bit_vector v(b, h & 1, h >> 1 & 1); within(v, 1.25 * n + (h & 1 ? ones / 16 : 0) + (h & 2 ? zeros / 16 : 0), "rs_bit_vector", what); }
    for (int r = 0; r < 2; ++r) {
        bit_vector_builder bb;
        for (uint8_t x : b) bb.push_back(x);
        elias_fano e(&bb, r);
        double H = ef_high(n, ones);
        within(e, ef_core(n, ones) + 0.5625 * (r ? H : ones) + H, r ? "elias_fano" : "elias_fano without rank index", what);
    }
    // balanced: the ones as nested runs
    Bits p; int64_t e = 0;
    for (uint8_t x : b) { if (!x && e == 0) continue; p.push_back(x); e += x ? 1 : -1; }
    while (e-- > 0) p.push_back(0);
    double q = double(p.size());
    for (int h = 0; h < 4; ++h) { bp_vector v(p, h & 1, h >> 1 & 1); within(v, 1.33 * q + ((h & 1) + (h >> 1 & 1)) * q / 32, "bp_vector", what); }
}
static void ints_case(Vals const& v, std::string const& what)
{
    double n = double(v.size()), g = 0, gb = 0, cl = 0, sum = 0, half = 0;
    for (uint64_t x : v) {
        double l = double(63 - __builtin_clzll(x + 1)), l2 = double(63 - __builtin_clzll(x + 2));
        g += 2 * l + 1; gb += 2 * l2; cl += l; sum += double(x); (void)half;
    }
    { gamma_vector t(v); within(t, g + n / 3, "gamma_vector", what); }
    { gamma_bit_vector t(v); within(t, gb + n / 3, "gamma_bit_vector", what); }
    { elias_fano_list t(v); within(t, ef_core(sum + 1, n) + 0.5625 * n + ef_high(sum + 1, n), "elias_fano_list", what); }
    { elias_fano_compressed_list t(v); within(t, cl + ef_core(cl + 1, n + 1) + 0.5625 * n + ef_high(cl + 1, n + 1), "elias_fano_compressed_list", what); }
    { cartesian_tree t(v); within(t, 2.75 * n, "cartesian_tree", what); }
    { topk_vector<mapper::mappable_vector<uint64_t>> t(v); within(t, 66.75 * n, "topk_vector", what); }
    { mapper::mappable_vector<uint64_t> t(v); within(t, 64 * n, "mappable_vector", what); }
    { std::vector<uint8_t> w; for (uint64_t x : v) w.push_back(uint8_t(x % 16)); nibble_vector t(w); within(t, 4 * n, "nibble_vector", what); mapper::mappable_vector<uint8_t> u(w); within(u, 8 * n, "byte vector", what); }
    { darray64::builder b; double z = 0; for (uint64_t x : v) { b.append1(x % 64); z += double(x % 64) + 1; } darray64 t(&b); within(t, z + n / 3, "darray64", what); }
}
static void efb_case(uint64_t n, Vals const& v, std::string const& what)
{
    for (int r = 0; r < 2; ++r) {
        elias_fano::elias_fano_builder b(n, v.size());
        for (uint64_t x : v) b.push_back(x);
        elias_fano e(&b, r);
        double H = ef_high(double(n), double(v.size()));
        within(e, ef_core(double(n), double(v.size())) + 0.5625 * (r ? H : double(v.size())) + H, "elias_fano", what);
    }
}

void explore()
{
    if (mc::section("every short bit string"))
        for (size_t n = 0; n <= (mc::thorough ? 14u : 11u); ++n) for (uint64_t x = 0; x < uint64_t(1) << n; ++x) {
            if (!mc::mine()) continue;
            Bits b = ref::from_int(x, n);
            MC_DESC(ref::show(b)); mc::state(mc::hash_seq(b));
            bits_case(b, ref::show(b));
        }
    auto runs = [&](std::vector<ref::Seg> const& menu, size_t len) {
        ref::sequences(menu.size(), len, [&](std::vector<size_t> const& s) {
            if (!mc::mine()) return;
            Bits b = ref::make(menu, s);
            MC_DESC(ref::show(b)); mc::state(mc::hash_seq(s, menu[0].len));
            bits_case(b, ref::show(b).substr(0, 200));
        });
    };
    if (mc::section("runs of thousands")) runs(ref::segs({0, 1, 2, 3, 4, 6, 7}, {64, 1000, 9000}), 2);
    if (mc::section("runs of a hundred thousand")) runs(ref::segs({0, 1, 2, 3, 4, 7}, {70000, 300000}), mc::thorough ? 3 : 2);
    if (mc::section("sparse ones"))      // one per g bits
        for (size_t g = 1; g <= 4096; g = g < 40 ? g + 1 : g * 5 / 4) for (size_t n : {size_t(200000), size_t(mc::thorough ? 8000000 : 2000000)}) for (int inv = 0; inv < 2; ++inv) {
            if (!mc::mine()) continue;
            Bits b(n);
            for (size_t i = 0; i < n; ++i) b[i] = (i % g == 0) ^ inv;
            std::ostringstream os; os << n << " bits, one " << (inv ? "zero" : "one") << " per " << g;
            MC_DESC(os.str()); mc::state(mc::mix(g, n + inv));
            bits_case(b, os.str());
        }
    if (mc::section("every short integer sequence"))
        ref::sequences(5, mc::thorough ? 6 : 5, [&](std::vector<size_t> const& s) {
            if (!mc::mine()) return;
            static const uint64_t m[] = {0, 1, 2, 100, uint64_t(1) << 50};
            Vals v; for (size_t i : s) v.push_back(m[i]);
            MC_DESC(s.size() << " values"); mc::state(mc::hash_seq(v));
            ints_case(v, std::to_string(s.size()) + " values");
        });
    if (mc::section("long integer sequences")) {
        std::vector<uint64_t> m = {0, 1, 2, 6, 7, 62, 63, 64, 1000, (1 << 20) - 1, 1 << 20, uint64_t(1) << 31, (uint64_t(1) << 40) - 1, uint64_t(1) << 40};
        for (uint64_t x : m) for (uint64_t y : m) for (size_t n : {3000, 100000}) for (size_t p : {2, 10, 1000}) {
            if (n == 100000 && p == 10 && !mc::thorough) continue;
            if (!mc::mine()) continue;
            Vals v(n, x);
            for (size_t i = 0; i < n; i += p) v[i] = y;
            std::ostringstream os; os << n << " values, mostly " << x << ", every " << p << "th " << y;
            MC_DESC(os.str()); mc::state(mc::hash_seq(v));
            ints_case(v, os.str());
        }
        for (int k = 0; k < 4; ++k) for (size_t n : {5000, 100000, 400000}) {
            if (!mc::mine()) continue;
            Vals v(n);
            for (size_t i = 0; i < n; ++i) v[i] = k == 0 ? i : k == 1 ? n - i : k == 2 ? (i * 2654435761u) % 1000003 : (i < n / 2 ? n - i : i);
            std::ostringstream os; os << n << " values of shape " << k;
            MC_DESC(os.str()); mc::state(mc::hash_seq(v));
            ints_case(v, os.str());
        }
    }
    if (mc::section("Elias-Fano by universe and count"))
        for (int l = 0; l < 50; ++l) for (uint64_t m : {uint64_t(1), uint64_t(100), uint64_t(5000), uint64_t(100000)}) for (uint64_t num : {16, 17, 20, 23, 27, 31}) for (int shape = 0; shape < 4; ++shape) {
            if (m == 100000 && (num % 2 == 0) && !mc::thorough) continue;
            if (!mc::mine()) continue;
            uint64_t n = (m << l) / 16 * num + (m << l) % 16;
            if (!n) n = 1;
            Vals v;
            for (uint64_t i = 0; i < m; ++i) v.push_back(shape == 0 ? i * (n / m) : shape == 1 ? 0 : shape == 2 ? n - 1 : i < m / 2 ? 0 : n - 1);
            std::ostringstream os; os << m << " values below " << n << ", shape " << shape;
            MC_DESC(os.str()); mc::state(mc::mix(mc::mix(n, m), shape));
            efb_case(n, v, os.str());
        }
}
MC_MAIN
