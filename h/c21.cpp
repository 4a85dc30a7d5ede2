// C21: folding and ceiling division
#include "ref.hpp"
#include "succinct/util.hpp"
using namespace succinct;
typedef __int128 I;

static uint64_t fold(I x) { return uint64_t(x < 0 ? -2 * x - 1 : 2 * x); }
static I unfold(I n) { return n % 2 ? -(n + 1) / 2 : n / 2; }
static void signed_(int64_t x) { uint64_t n = util::int2nat(x); EQ(n, fold(x), "int2nat(" << x << ")"); EQ(util::nat2int(n), x, "nat2int(int2nat(" << x << "))"); }
static void unsigned_(uint64_t n) { int64_t x = util::nat2int(n); EQ(x, int64_t(unfold(I(n))), "nat2int(" << n << ")"); EQ(util::int2nat(x), n, "int2nat(nat2int(" << n << "))"); }

template <class A, class B> static void div_(A a, B b)
{
    // the least q with q * b >= a; only when a + b does not overflow
    I q = (I(a) + I(b) - 1) / I(b);
    EQ(I(util::ceil_div(a, b)) == q, true, "ceil_div(" << +a << ", " << +b << ") as " << sizeof(A) << " and " << sizeof(B) << " byte integers");
}
template <class A, class B> static void small(unsigned lim)
{
    for (unsigned a = 0; a <= lim; ++a) {
        if (!mc::mine()) continue;
        MC_DESC(a << " divided by everything, " << sizeof(A) << "/" << sizeof(B) << " bytes");
        mc::state(mc::mix(a, sizeof(A) * 10 + sizeof(B)));
        for (unsigned b = 1; b <= lim; ++b) if (I(a) + b <= I(std::numeric_limits<A>::max()) && I(b) <= I(std::numeric_limits<B>::max())) div_<A, B>(A(a), B(b));
    }
}
template <class A, class B> static void wide()
{
    std::vector<uint64_t> m;
    for (int k = 0; k < 64; ++k) for (int d = -3; d <= 3; ++d) m.push_back((uint64_t(1) << k) + uint64_t(int64_t(d)));
    for (uint64_t x : {uint64_t(0), uint64_t(7), uint64_t(100), uint64_t(1000003), ~uint64_t(0) - 7, ~uint64_t(0)}) m.push_back(x);
    for (uint64_t a : m) {
        if (!mc::mine()) continue;
        MC_DESC(a << " divided by every boundary value");
        mc::state(mc::mix(a, sizeof(A) * 10 + sizeof(B) + 1000));
        for (uint64_t b : m) if (b && I(a) + I(b) <= I(std::numeric_limits<A>::max()) && I(b) <= I(std::numeric_limits<B>::max())) div_<A, B>(A(a), B(b));
    }
}

void explore()
{
    uint64_t R = mc::thorough ? uint64_t(1) << 26 : uint64_t(1) << 21;
    if (mc::section("every integer near a power of two")) {
        for (int k = 0; k <= 64; ++k) for (uint64_t c = 0; c < 64; ++c) {
            if (!mc::mine()) continue;
            MC_DESC("integers around 2^" << k << ", part " << c);
            mc::state(mc::mix(uint64_t(k), c));
            uint64_t b = k == 64 ? 0 : uint64_t(1) << k;
            uint64_t w = R / 64;
            for (uint64_t i = 0; i < w; ++i) {
                uint64_t lo = b - R / 2 + c * w + i;
                unsigned_(lo); signed_(int64_t(lo)); signed_(int64_t(-lo)); unsigned_(~lo);
            }
        }
    }
    if (mc::section("every value of 16 bits in every position"))
        for (unsigned s = 0; s <= 48; ++s) for (uint64_t hi = 0; hi < 64; ++hi) {
            if (!mc::mine()) continue;
            for (uint64_t lo = 0; lo < 1024; ++lo) {
                uint64_t x = (hi << 10 | lo) << s;
                unsigned_(x); signed_(int64_t(x)); unsigned_(~x); signed_(int64_t(~x));
            }
            mc::state(mc::mix(s * 100 + hi, 5));
        }
    if (mc::section("ceil_div: every small pair")) {
        small<uint64_t, uint64_t>(mc::thorough ? 3000 : 1000); small<uint32_t, uint32_t>(600); small<int, int>(600); small<uint8_t, uint8_t>(255); small<uint64_t, int>(400);
        small<unsigned long, unsigned>(400); small<int64_t, int>(400); small<uint16_t, uint8_t>(300); small<uint64_t, uint8_t>(255);
    }
    if (mc::section("ceil_div: boundary pairs")) {
        wide<uint64_t, uint64_t>(); wide<uint32_t, uint32_t>(); wide<int, int>(); wide<int64_t, int64_t>(); wide<uint64_t, int>(); wide<uint64_t, uint32_t>(); wide<uint64_t, int64_t>(); wide<uint16_t, uint16_t>(); wide<uint8_t, uint8_t>();
    }
}
MC_MAIN
