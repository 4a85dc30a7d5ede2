// C19: word primitives against their bitwise definition
#include "ref.hpp"
#include "succinct/broadword.hpp"
using namespace succinct;
namespace bw = succinct::broadword;

static std::string hex(uint64_t x) { std::ostringstream os; os << std::hex << "0x" << x; return os.str(); }

static void word(uint64_t x)
{
    // bit by bit
    uint8_t pos[64]; uint64_t n = 0, counts = 0, rbits = 0, rbytes = 0;
    for (unsigned i = 0; i < 64; ++i) if (x >> i & 1) { pos[n++] = uint8_t(i); counts += uint64_t(1) << (i / 8 * 8); rbits |= uint64_t(1) << (63 - i); rbytes |= uint64_t(1) << ((7 - i / 8) * 8 + i % 8); }
    EQ(bw::popcount(x), n, "popcount " << hex(x));
    EQ(bw::byte_counts(x), counts, "byte_counts " << hex(x));
    EQ(bw::bytes_sum(counts), n, "bytes_sum " << hex(counts));
    EQ(bw::reverse_bytes(x), rbytes, "reverse_bytes " << hex(x));
    EQ(bw::reverse_bits(x), rbits, "reverse_bits " << hex(x));
    unsigned long r = 99;
    EQ(bool(bw::msb(x, r)), n != 0, "msb found " << hex(x));
    if (n) { EQ(r, (unsigned long)pos[n - 1], "msb " << hex(x)); EQ(unsigned(bw::msb(x)), unsigned(pos[n - 1]), "msb " << hex(x)); }
    r = 99;
    EQ(bool(bw::lsb(x, r)), n != 0, "lsb found " << hex(x));
    if (n) { EQ(r, (unsigned long)pos[0], "lsb " << hex(x)); EQ(unsigned(bw::lsb(x)), unsigned(pos[0]), "lsb " << hex(x)); }
    if (n == 1) EQ(unsigned(bw::bit_position(x)), unsigned(pos[0]), "bit_position " << hex(x));
    for (uint64_t k = 0; k < n; ++k) {
        uint64_t s = bw::select_in_word(x, k);
        if (s != pos[k]) EQ(s, uint64_t(pos[k]), "select_in_word " << hex(x) << " " << k);
    }
    mc::checks += n;
}

// lanes of width w at offset lane*w; every pair (a, b) of the domain in one lane, the same neighbour pair in all the others
template <typename F, typename R, typename D> static void lanes(unsigned w, unsigned nl, const char* name, F f, R r, D dom)
{
    uint64_t M = uint64_t(1) << w;
    std::vector<uint64_t> e = {0, 1, M / 2 - 1, M / 2, M / 2 + 1, M - 2, M - 1, 5};
    for (unsigned l = 0; l < nl; ++l) for (uint64_t na : e) for (uint64_t nb : e) {
        if (!dom(na, nb)) continue;
        if (!mc::mine()) continue;
        MC_DESC(name << ": every pair in lane " << l << ", neighbours " << na << " " << nb);
        uint64_t ax = 0, bx = 0, rx = 0;
        for (unsigned k = 0; k < nl; ++k) if (k != l) { ax |= na << (k * w); bx |= nb << (k * w); rx |= uint64_t(r(na, nb)) << (k * w); }
        mc::state(mc::mix(mc::mix(ax, bx), l + w * 100));
        for (uint64_t a = 0; a < M; ++a) for (uint64_t b = 0; b < M; ++b) {
            if (!dom(a, b)) continue;
            uint64_t X = ax | a << (l * w), Y = bx | b << (l * w), W = rx | uint64_t(r(a, b)) << (l * w);
            uint64_t G = f(X, Y);
            if (G != W) EQ(G, W, name << " " << hex(X) << " " << hex(Y));
        }
        mc::checks += M * M;
    }
}
// different pairs in every lane: rotations of a cycle of pairs
template <typename F, typename R, typename D> static void mixed(unsigned w, unsigned nl, const char* name, F f, R r, D dom)
{
    uint64_t M = uint64_t(1) << w;
    std::vector<std::pair<uint64_t, uint64_t>> ps;
    for (uint64_t a : {uint64_t(0), uint64_t(1), M / 2 - 1, M / 2, M - 1, uint64_t(3)}) for (uint64_t b : {uint64_t(0), uint64_t(1), M / 2 - 1, M / 2, M - 1, uint64_t(3)}) if (dom(a, b)) ps.push_back({a, b});
    for (size_t i = 0; i < ps.size(); ++i) for (size_t j = 0; j < ps.size(); ++j) {
        if (!mc::mine()) continue;
        MC_DESC(name << ": alternating pairs " << i << " and " << j << ", and the third one in any lane");
        for (size_t k = 0; k < ps.size(); ++k) for (unsigned l = 0; l < nl; ++l) {
            uint64_t X = 0, Y = 0, W = 0;
            for (unsigned q = 0; q < nl; ++q) {
                std::pair<uint64_t, uint64_t> p = q == l ? ps[k] : q % 2 ? ps[j] : ps[i];
                X |= p.first << (q * w); Y |= p.second << (q * w); W |= uint64_t(r(p.first, p.second)) << (q * w);
            }
            EQ(f(X, Y), W, name << " " << hex(X) << " " << hex(Y));
        }
    }
}
static int64_t sgn(uint64_t a) { return int8_t(uint8_t(a)); }

void explore()
{
    if (mc::section("words: every 16-bit window at every shift"))
        for (unsigned s = 0; s <= 48; ++s) for (uint64_t bg = 0; bg < (mc::cfg == "asan" && !mc::thorough ? 2 : 3); ++bg) for (uint64_t hi = 0; hi < 256; ++hi) {
            if (!mc::mine()) continue;
            MC_DESC("16-bit windows " << hi * 256 << ".. shifted by " << s << " over background " << bg);
            mc::state(mc::mix(s * 4 + bg, hi));
            for (uint64_t lo = 0; lo < 256; ++lo) {
                uint64_t v = hi << 8 | lo, b = bg == 0 ? 0 : bg == 1 ? ~uint64_t(0) : 0x6996966996696996ull;
                word((b & ~(uint64_t(0xFFFF) << s)) | v << s);
            }
        }
    if (mc::section("words: at most four bits different from the background"))
        for (unsigned i = 0; i < 64; ++i) for (unsigned j = i; j < 64; ++j) {
            if (!mc::mine()) continue;
            MC_DESC("bits " << i << " " << j << " and every pair above");
            mc::state(mc::mix(i, j + 5000));
            for (unsigned k = j; k < 64; ++k) for (unsigned l = k; l < 64; ++l) {
                uint64_t x = uint64_t(1) << i | uint64_t(1) << j | uint64_t(1) << k | uint64_t(1) << l;
                word(x); word(~x);
                if (mc::thorough) { word(0x5555555555555555ull ^ x); word(0x00FF00FF00FF00FFull ^ x); }
            }
        }
    if (mc::section("words: every combination of bytes from a menu")) {
        std::vector<uint64_t> m = {0, 1, 0x80, 0xFF, 0x7F, 0x55};
        if (mc::thorough) { m.push_back(0xFE); m.push_back(0x18); m.push_back(0xA3); }
        ref::sequences(m.size(), 4, [&](std::vector<size_t> const& s) {
            if (!mc::mine()) return;
            uint64_t h = 0;
            for (size_t i = 0; i < 4; ++i) h |= m[s[i]] << (i * 8);
            MC_DESC("low half " << hex(h) << ", every high half");
            mc::state(mc::mix(h, 77));
            ref::sequences(m.size(), 4, [&](std::vector<size_t> const& t) {
                uint64_t x = h;
                for (size_t i = 0; i < 4; ++i) x |= m[t[i]] << (32 + i * 8);
                word(x);
            }, 4);
        }, 4);
    }
    if (mc::section("words: runs of ones"))
        for (unsigned i = 0; i <= 64; ++i) for (unsigned j = i; j <= 64; ++j) {
            if (!mc::mine()) continue;
            auto run = [](unsigned a, unsigned b) { uint64_t x = 0; for (unsigned k = a; k < b; ++k) x |= uint64_t(1) << k; return x; };
            uint64_t x = run(i, j);
            MC_DESC("run [" << i << "," << j << ") xor every other run");
            mc::state(mc::mix(x, 99));
            for (unsigned a = 0; a <= 64; ++a) for (unsigned b = a; b <= 64; ++b) word(x ^ run(a, b));
        }
    if (mc::section("bytes_sum: every sum up to 255"))
        for (uint64_t a = 0; a < 256; ++a) {
            if (!mc::mine()) continue;
            mc::state(mc::mix(a, 3));
            for (uint64_t b = 0; a + b < 256; ++b) for (unsigned i = 0; i < 8; ++i) for (unsigned j = 0; j < 8; ++j) if (i != j) {
                uint64_t rest = (255 - a - b) / 6, x = 0, s = 0;
                for (int full = 0; full < 2; ++full) {
                    x = s = 0;
                    for (unsigned k = 0; k < 8; ++k) { uint64_t v = k == i ? a : k == j ? b : full ? rest : 0; x |= v << (k * 8); s += v; }
                    EQ(bw::bytes_sum(x), s, "bytes_sum " << hex(x));
                }
            }
        }
    if (mc::section("same_msb")) {
        std::vector<uint64_t> m(1, 0);
        for (unsigned i = 0; i < 64; ++i) {
            uint64_t t = uint64_t(1) << i;
            for (uint64_t lo : std::vector<uint64_t>{0, t - 1, 0x5555555555555555ull & (t - 1), 0xAAAAAAAAAAAAAAAAull & (t - 1), (t - 1) / 2, uint64_t(i > 0), 0x0123456789ABCDEFull & (t - 1)}) m.push_back(t | lo);
        }
        for (uint64_t v = 0; v < 256; ++v) m.push_back(v);
        for (size_t i = 0; i < m.size(); ++i) {
            if (!mc::mine()) continue;
            MC_DESC("same_msb of " << hex(m[i]) << " and every other");
            mc::state(mc::mix(m[i], 11));
            for (size_t j = 0; j < m.size(); ++j) {
                bool want = (m[i] == 0 || m[j] == 0) ? m[i] == m[j] : __builtin_clzll(m[i]) == __builtin_clzll(m[j]);
                EQ(bool(bw::same_msb(m[i], m[j])), want, "same_msb " << hex(m[i]) << " " << hex(m[j]));
            }
        }
    }
    auto any = [](uint64_t, uint64_t) { return true; };
    auto fits = [](uint64_t a, uint64_t b) { int64_t d = sgn(b) - sgn(a); return d >= -128 && d <= 127; };
    auto ule = [](uint64_t a, uint64_t b) { return a <= b; };
    auto sle = [](uint64_t a, uint64_t b) { return sgn(a) <= sgn(b); };
    auto f8 = [](uint64_t x, uint64_t y) { return bw::uleq_step_8(x, y); };
    auto s8 = [](uint64_t x, uint64_t y) { return bw::leq_step_8(x, y); };
    auto f9 = [](uint64_t x, uint64_t y) { return bw::uleq_step_9(x, y); };
    auto z8 = [](uint64_t x, uint64_t) { return bw::zcompare_step_8(x); };
    auto nz = [](uint64_t a, uint64_t) { return a != 0; };
    auto one = [](uint64_t, uint64_t b) { return b == 0; };
    if (mc::section("uleq_step_8")) { lanes(8, 8, "uleq_step_8", f8, ule, any); mixed(8, 8, "uleq_step_8", f8, ule, any); }
    if (mc::section("leq_step_8")) { lanes(8, 8, "leq_step_8", s8, sle, fits); mixed(8, 8, "leq_step_8", s8, sle, fits); }
    if (mc::section("uleq_step_9")) { lanes(9, 7, "uleq_step_9", f9, ule, any); mixed(9, 7, "uleq_step_9", f9, ule, any); }
    if (mc::section("zcompare_step_8")) { lanes(8, 8, "zcompare_step_8", z8, nz, one); mixed(8, 8, "zcompare_step_8", z8, nz, one); }
}
MC_MAIN
