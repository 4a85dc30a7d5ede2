// C10: forward enumeration from every index vs the stored values
#include "lists.hpp"
using namespace succinct;

template <class C> struct has_skip { static const bool v = false; };
template <> struct has_skip<gamma_bit_vector> { static const bool v = true; };

template <class E> static void do_skip(E&, size_t, std::false_type) {}
template <class E> static void do_skip(E& e, size_t k, std::true_type) { e.skip(k); }

template <class C> static void one(Vals const& v, bool small)
{
    typedef forward_enumerator<C> E;
    typedef std::integral_constant<bool, has_skip<C>::v> SK;
    MC_DESC(lists::show(v));
    mc::state(mc::hash_seq(v));
    C c(v);
    size_t n = v.size();
    { E e(c); for (size_t i = 0; i < n; ++i) EQ(uint64_t(e.next()), v[i], "from the start, at " << i << " of " << lists::show(v)); }
    { E e(c, n); }
    auto from = [&](size_t s) {
        E e(c, s);
        size_t stop = small ? n : std::min<size_t>(n, s + 200);
        for (size_t i = s; i < stop; ++i) EQ(uint64_t(e.next()), v[i], "from " << s << ", at " << i << " of " << lists::show(v));
    };
    if (n <= 300) for (size_t s = 0; s < n; ++s) from(s);
    else for (size_t s : {size_t(1), size_t(2), size_t(62), size_t(63), size_t(64), size_t(65), size_t(1022), size_t(1023), size_t(1024), size_t(1025), n / 3, n / 2, n - 130, n - 65, n - 64, n - 2, n - 1}) if (s < n) from(s);
    // two enumerators alternately, one copied on the way
    if (n) {
        E a(c, 0), b(c, n / 2);
        size_t i = 0, j = n / 2;
        for (int k = 0; k < 20; ++k) {
            if (i < n) { EQ(uint64_t(a.next()), v[i], "first of two at " << i << " of " << lists::show(v)); ++i; }
            if (j < n) { EQ(uint64_t(b.next()), v[j], "second of two at " << j << " of " << lists::show(v)); ++j; }
            E d = a;
            for (size_t q = i; q < n && q < i + 3; ++q) EQ(uint64_t(d.next()), v[q], "copy at " << q << " of " << lists::show(v));
        }
    }
    if (!has_skip<C>::v) return;
    // all mixes of next and skip(k) up to three steps, from several starts, then the rest
    std::vector<size_t> ks = {size_t(-1), 0, 1, 2, 5, 63, 64};
    size_t depth = small ? 3 : 2;
    std::vector<size_t> starts = {0, 1, n / 2};
    if (n > 65) starts.push_back(63);
    for (size_t s : starts) if (s < n)
        ref::sequences(ks.size(), depth, [&](std::vector<size_t> const& seq) {
            E e(c, s);
            size_t p = s;
            for (size_t i : seq) {
                if (ks[i] == size_t(-1)) { if (p >= n) return; EQ(uint64_t(e.next()), v[p], "mix from " << s << " at " << p << " of " << lists::show(v)); ++p; }
                else { if (p + ks[i] > n) return; do_skip(e, ks[i], SK()); p += ks[i]; }
            }
            for (size_t stop = std::min(n, p + 3); p < stop; ++p) EQ(uint64_t(e.next()), v[p], "after the mix from " << s << " at " << p << " of " << lists::show(v));
        }, depth);
}

template <class C> static void container(std::string const& who, uint64_t mx, bool bounded_sum)
{
    lists::families(who, mx, bounded_sum, [&](Vals const& v) { one<C>(v, v.size() <= 8); });
}

template <class C> static void giant(const char* who)
{
    if (mc::cfg != "popcnt" || !mc::section((std::string(who) + ": more than 2^32 stored bits").c_str())) return;
    if (!mc::mine()) return;
    lists::Giant g(70000000);
    MC_DESC(g.n << " values of 63 bits, a small one at every 1000th index");
    mc::state(mc::mix(g.n, mc::hash_seq(std::string(who))));
    C c(g);
    typedef std::integral_constant<bool, has_skip<C>::v> SK;
    for (uint64_t s : {uint64_t(0), g.n / 2, uint64_t(68174084) - 100, uint64_t(69273666) - 100, g.n - 5}) {
        forward_enumerator<C> e(c, s);
        for (uint64_t i = s; i < g.n && (s == 0 || i < s + 10000); ++i) EQ(uint64_t(e.next()), lists::Giant::val(i), who << " from " << s << " at " << i);
        if (!has_skip<C>::v || s == 0) continue;
        forward_enumerator<C> k(c, s);
        for (uint64_t i = s; i < g.n && i < s + 10000; i += 1 + i % 5) { EQ(uint64_t(k.next()), lists::Giant::val(i), who << " with skips from " << s << " at " << i); do_skip(k, std::min(i % 5, g.n - 1 - i), SK()); }
    }
}

template <class C> static void many(const char* who)
{
    if (mc::cfg != "popcnt" || !mc::section((std::string(who) + ": more than 2^32 elements").c_str())) return;
    if (!mc::mine()) return;
    const uint64_t B = uint64_t(1) << 32;
    lists::Long g(B + 9000);
    MC_DESC(g.n << " values, all zero but every 4096th");
    mc::state(mc::mix(g.n, mc::hash_seq(std::string(who))));
    C c(g);
    typedef std::integral_constant<bool, has_skip<C>::v> SK;
    for (uint64_t s : {uint64_t(0), B / 2 - 5, B / 2 + 1, B - 4096, B - 1, B, B + 3, B + 5000, g.n - 1, g.n}) {
        forward_enumerator<C> e(c, s);
        for (uint64_t i = s; i < g.n && i < s + 20000; ++i) EQ(uint64_t(e.next()), lists::Long::val(i), who << " from " << s << " at " << i);
        if (!has_skip<C>::v || s == 0) continue;
        forward_enumerator<C> k(c, s);
        for (uint64_t i = s; i < g.n && i < s + 20000; i += 1 + i % 5) { EQ(uint64_t(k.next()), lists::Long::val(i), who << " with skips from " << s << " at " << i); do_skip(k, std::min(i % 5, g.n - 1 - i), SK()); }
    }
}

void explore()
{
    container<gamma_vector>("gamma_vector", lists::MAX - 1, false);
    container<gamma_bit_vector>("gamma_bit_vector", lists::MAX - 2, false);
    container<elias_fano_list>("elias_fano_list", lists::MAX - 1, true);
    container<elias_fano_compressed_list>("elias_fano_compressed_list", lists::MAX - 1, false);
    giant<gamma_vector>("gamma_vector");
    giant<gamma_bit_vector>("gamma_bit_vector");
    giant<elias_fano_compressed_list>("elias_fano_compressed_list");
    many<gamma_vector>("gamma_vector");
    many<gamma_bit_vector>("gamma_bit_vector");
    many<elias_fano_list>("elias_fano_list");
    many<elias_fano_compressed_list>("elias_fano_compressed_list");
    container<mapper::mappable_vector<uint64_t> >("mappable_vector", lists::MAX, false);
}
MC_MAIN
