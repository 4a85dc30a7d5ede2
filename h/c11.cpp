// C11: find_open / find_close / enclose vs matching with a stack
#include "bp.hpp"
using namespace succinct;

static void verify(bp_vector const& v, Bits const& b)
{
    size_t n = b.size();
    EQ(v.size(), n, "size");
    std::vector<uint32_t> st;
    for (size_t i = 0; i < n; ++i) {
        if (b[i]) {
            if (!st.empty()) EQ(v.enclose(i), uint64_t(st.back()), "enclose(" << i << ") of " << ref::show(b));
            st.push_back(uint32_t(i));
        } else {
            uint32_t o = st.back();
            st.pop_back();
            EQ(v.find_open(i), uint64_t(o), "find_open(" << i << ") of " << ref::show(b));
            EQ(v.find_close(o), uint64_t(i), "find_close(" << o << ") of " << ref::show(b));
        }
    }
    OK(st.empty(), "harness: unbalanced input " << ref::show(b));
}

void explore()
{
    bps::families([&](Bits const& b, int cls) {
        MC_DESC(ref::show(b));
        mc::state(mc::hash_seq(b));
        { bp_vector v(b); verify(v, b); }
        if (cls == 0) {
            bit_vector_builder bb;
            for (auto x : b) bb.push_back(x);
            bp_vector v(&bb, true, true);
            verify(v, b);
        }
    });

    if (mc::cfg != "asan" && mc::section("more than 2^32 parentheses"))
        for (int kind = 0; kind < 2; ++kind) {
            if (!mc::mine()) continue;
            MC_DESC(kind << ": an outer pair around 2^32 + 2^16 bits of filler");
            bit_vector_builder bb;
            uint64_t fill = (uint64_t(1) << 32) + 65536 + 128;
            uint64_t pre = kind ? 1000 : 1;
            bb.one_extend(pre);
            uint64_t w = 0x5555555555555555ull;                  // ()()..., low bit first
            for (uint64_t i = 0; i < fill / 64; ++i) bb.append_bits(w, 64);
            // a hill near the end
            bb.one_extend(70000); bb.zero_extend(70000);
            bb.zero_extend(pre);
            bp_vector v(&bb);
            uint64_t n = v.size();
            EQ(n, fill + 140000 + 2 * pre, "size");
            for (uint64_t i = 0; i < pre; i += 37) {
                EQ(v.find_close(i), n - 1 - i, "find_close(" << i << ")");
                EQ(v.find_open(n - 1 - i), i, "find_open");
                if (i) EQ(v.enclose(i), i - 1, "enclose(" << i << ")");
            }
            for (uint64_t k : {uint64_t(0), uint64_t(2), fill / 4 * 2, fill - 2, (uint64_t(1) << 31) - 2, uint64_t(1) << 31, (uint64_t(1) << 32) - 1024, uint64_t(1) << 32}) {
                uint64_t p = pre + k;
                EQ(v.find_close(p), p + 1, "find_close(" << p << ")");
                EQ(v.find_open(p + 1), p, "find_open(" << p + 1 << ")");
                EQ(v.enclose(p), pre - 1, "enclose(" << p << ")");
            }
            uint64_t h = pre + fill;
            for (uint64_t i = 0; i < 70000; i += 997) {
                EQ(v.find_close(h + i), h + 140000 - 1 - i, "find_close on the hill");
                EQ(v.find_open(h + 140000 - 1 - i), h + i, "find_open on the hill");
                EQ(v.enclose(h + i), i ? h + i - 1 : pre - 1, "enclose on the hill");
            }
        }
}
MC_MAIN
