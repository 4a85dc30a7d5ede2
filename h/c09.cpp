// C09: compressed integer containers return what was stored
#include "lists.hpp"
using namespace succinct;

template <class C> static void verify(C const& c, Vals const& v, const char* how)
{
    EQ(c.size(), v.size(), how << " size of " << lists::show(v));
    for (size_t i = 0; i < v.size(); ++i) EQ(uint64_t(c[i]), v[i], how << " [" << i << "] of " << lists::show(v));
    for (size_t i = v.size(); i-- > 0;) if (i % 37 == 0) EQ(uint64_t(c[i]), v[i], how << " [" << i << "] again, of " << lists::show(v));
}
template <class C> static void total(C const&, Vals const&) {}
static void total(elias_fano_list const& c, Vals const& v)
{
    uint64_t s = 0;
    for (auto x : v) s += x;
    EQ(c.sum(), s, "sum of " << lists::show(v));
}

template <class C> static void container(std::string const& who, uint64_t mx, bool bounded_sum)
{
    lists::families(who, mx, bounded_sum, [&](Vals const& v) {
        MC_DESC(lists::show(v));
        mc::state(mc::hash_seq(v));
        { C c(v); verify(c, v, "vector"); total(c, v); }
        if (v.size() > 300) return;
        { std::list<uint64_t> l(v.begin(), v.end()); C c(l); verify(c, v, "list"); }
        { C c(boost::make_iterator_range(v.data(), v.data() + v.size())); verify(c, v, "pointer range"); }
        if (v.empty()) return;
        uint64_t top = *std::max_element(v.begin(), v.end());
        uint64_t slack = lists::MAX - mx; // what the code adds
        (void)slack;
        if (top <= 0xFFFFFFFFu) { std::vector<uint32_t> w(v.begin(), v.end()); C c(w); verify(c, v, "32-bit elements"); total(c, v); }
        if (top <= 0xFFFF) { std::deque<uint16_t> w(v.begin(), v.end()); C c(w); verify(c, v, "16-bit elements"); total(c, v); }
        if (top <= 0xFF) { std::vector<uint8_t> w(v.begin(), v.end()); C c(w); verify(c, v, "8-bit elements"); total(c, v); }
        if (top <= 0x7FFFFFFF) { std::vector<int> w(v.begin(), v.end()); C c(w); verify(c, v, "int elements"); total(c, v); }
    });
}

template <class C> static void giant(const char* who)
{
    if (mc::cfg != "popcnt" || !mc::section((std::string(who) + ": more than 2^32 stored bits").c_str())) return;
    if (!mc::mine()) return;
    lists::Giant g(70000000);
    MC_DESC(g.n << " values of 63 bits, a small one at every 1000th index");
    mc::state(mc::mix(g.n, mc::hash_seq(std::string(who))));
    C c(g);
    EQ(c.size(), g.n, who << " size");
    for (uint64_t at : {uint64_t(0), g.n / 2, uint64_t(66000000), uint64_t(68174084), uint64_t(69273666), g.n})
        for (uint64_t i = at < 3000 ? 0 : at - 3000; i < g.n && i < at + 3000; ++i) EQ(uint64_t(c[i]), lists::Giant::val(i), who << " [" << i << "]");
    for (uint64_t i = 0; i < g.n; i += 1021) EQ(uint64_t(c[i]), lists::Giant::val(i), who << " [" << i << "]");
}

template <class C> static void many(const char* who)
{
    if (mc::cfg != "popcnt" || !mc::section((std::string(who) + ": more than 2^32 elements").c_str())) return;
    if (!mc::mine()) return;
    const uint64_t B = uint64_t(1) << 32;
    lists::Long g(B + 9000);
    MC_DESC(g.n << " values, all zero but every 4096th");
    mc::state(mc::mix(g.n, mc::hash_seq(std::string(who))));
    C c(g);
    EQ(uint64_t(c.size()), g.n, who << " size");
    for (uint64_t at : {uint64_t(0), B / 4, B / 2, B / 2 + 5000, B - 4096, B, B + 4096, g.n})
        for (uint64_t i = at < 4200 ? 0 : at - 4200; i < g.n && i < at + 4200; ++i) EQ(uint64_t(c[i]), lists::Long::val(i), who << " [" << i << "]");
    for (uint64_t i = 7; i < g.n; i += 4096 * 97) { EQ(uint64_t(c[i]), lists::Long::val(i), who << " [" << i << "]"); EQ(uint64_t(c[i - 1]), lists::Long::val(i - 1), who << " [" << i - 1 << "]"); }
}

void explore()
{
    container<gamma_vector>("gamma_vector", lists::MAX - 1, false);
    container<gamma_bit_vector>("gamma_bit_vector", lists::MAX - 2, false);
    container<elias_fano_list>("elias_fano_list", lists::MAX - 1, true);
    container<elias_fano_compressed_list>("elias_fano_compressed_list", lists::MAX - 1, false);
    container<nibble_vector>("nibble_vector", 15, false);
    giant<gamma_vector>("gamma_vector");
    giant<gamma_bit_vector>("gamma_bit_vector");
    giant<elias_fano_compressed_list>("elias_fano_compressed_list");
    many<gamma_vector>("gamma_vector");
    many<gamma_bit_vector>("gamma_bit_vector");
    many<elias_fano_list>("elias_fano_list");
    many<elias_fano_compressed_list>("elias_fano_compressed_list");
    many<nibble_vector>("nibble_vector");
    if (mc::section("nibble_vector: every sequence"))
        ref::sequences(16, 4, [&](std::vector<size_t> const& s) {
            if (!mc::mine()) return;
            Vals v(s.begin(), s.end());
            mc::state(mc::hash_seq(v, 99));
            nibble_vector c(v);
            verify(c, v, "nibbles");
        });
}
MC_MAIN
