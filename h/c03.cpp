// C03: bit cursor, all interleavings of next / take / skip_zeros
#include "ref.hpp"
#include "succinct/bit_vector.hpp"
using namespace succinct;
typedef bit_vector::enumerator En;

struct Walk {
    Bits const& b;
    std::vector<int> ops;      // -1 next, -2 skip_zeros, >= 0 take
    std::vector<int> path;
    size_t start;
    std::vector<int64_t> succ1;

    Walk(Bits const& b_, std::vector<int> const& o) : b(b_), ops(o), succ1(b_.size() + 1, -1)
    { for (size_t i = b.size(); i-- > 0;) succ1[i] = b[i] ? int64_t(i) : succ1[i + 1]; }

    std::string where() const
    {
        std::ostringstream os;
        os << "enumerator(" << start << ")";
        for (int o : path) { if (o == -1) os << ".next"; else if (o == -2) os << ".skip_zeros"; else os << ".take(" << o << ")"; }
        os << " on " << ref::show(b);
        return os.str();
    }

    // one step; false if not legal
    bool step(En& e, size_t& pos, int op)
    {
        path.push_back(op);
        bool legal = true;
        if (op == -1) {
            if (pos >= b.size()) legal = false;
            else { EQ(e.next(), bool(b[pos]), where()); pos++; }
        } else if (op == -2) {
            if (pos >= b.size() || succ1[pos] < 0) legal = false;
            else { uint64_t z = uint64_t(succ1[pos]) - pos; EQ(e.skip_zeros(), z, where()); pos += z + 1; }
        } else {
            if (pos + size_t(op) > b.size()) legal = false;
            else { EQ(e.take(size_t(op)), ref::word(b, pos, size_t(op)), where()); pos += size_t(op); }
        }
        if (legal) EQ(e.position(), uint64_t(pos), where());
        if (!legal) path.pop_back();
        return legal;
    }

    void dfs(En const& e, size_t pos, size_t depth)
    {
        if (!depth) return;
        for (int op : ops) {
            En f = e;
            size_t p = pos;
            if (!step(f, p, op)) continue;
            dfs(f, p, depth - 1);
            path.pop_back();
        }
    }
};

static void run(Bits const& b, std::vector<int> const& ops, std::vector<size_t> const& starts, size_t depth)
{
    bit_vector bv(b);
    Walk w(b, ops);
    MC_DESC(ref::show(b) << ", starts " << starts.size() << ", depth " << depth);
    for (size_t s : starts) {
        if (s >= b.size()) continue;
        mc::state(mc::hash_seq(b, s));
        w.start = s;
        w.path.clear();
        w.dfs(En(bv, s), s, depth);
    }
}

static void bang(Bits const& b, size_t start, std::vector<int> const& ops)
{
    // cycle through ops to the end of the vector
    bit_vector bv(b);
    Walk w(b, ops);
    w.start = start;
    En e(bv, start);
    size_t pos = start, idle = 0;
    mc::state(mc::hash_seq(b, mc::hash_seq(ops, start)));
    for (size_t k = 0; idle < ops.size(); ++k) {
        size_t before = pos;
        w.step(e, pos, ops[k % ops.size()]);
        idle = pos == before ? idle + 1 : 0;
        if (w.path.size() > 40) w.path.erase(w.path.begin());
    }
}

void explore()
{
    std::vector<int> all = {-1, -2, 0, 1, 2, 5, 31, 32, 33, 58, 62, 63, 64};
    std::vector<int> core = {-1, -2, 0, 1, 7, 63, 64};

    auto menu = ref::segs({0, 1, 2, 6}, {1, 40, 63, 64, 65, 130});
    if (mc::section("short histories, every start, one or two runs"))
        ref::sequences(menu.size(), 2, [&](std::vector<size_t> const& s) {
            if (!mc::mine()) return;
            Bits b = ref::make(menu, s);
            std::vector<size_t> st;
            for (size_t i = 0; i < b.size(); i += (s.size() == 2 && !mc::thorough) ? 3 : 1) st.push_back(i);
            if (b.size()) st.push_back(b.size() - 1);
            run(b, all, st, s.size() == 1 ? 3 : 2);
        });

    if (mc::section("deep histories"))
        for (int k = 0; k < 10; ++k) for (size_t n : {65, 128, 200, 330}) for (size_t s : {0, 1, 33, 63, 64}) {
            if (!mc::mine()) continue;
            Bits b; ref::add(b, k, n);
            run(b, core, {s}, mc::thorough ? 7 : 5);
        }

    if (mc::section("deep histories over three runs")) {
        auto m3 = ref::segs({0, 1, 2}, {1, 30, 64, 100});
        ref::sequences(m3.size(), 3, [&](std::vector<size_t> const& s) {
            if (!mc::mine()) return;
            Bits b = ref::make(m3, s);
            run(b, core, {0, 1, 31, 64}, mc::thorough ? 5 : 4);
        }, 3);
    }

    if (mc::section("every pair of takes at every start"))
        for (int k : {1, 2, 6}) for (size_t start = 0; start < 66; ++start) for (int a = 0; a <= 64; ++a) {
            if (!mc::mine()) continue;
            Bits b; ref::add(b, k, 260);
            if (k == 1) { b[100] = 0; b[64] = 0; }
            bit_vector bv(b);
            MC_DESC("take(" << a << ") then take(any), skip_zeros, next from " << start << " of pattern " << k);
            for (int c = 0; c <= 64; ++c) {
                Walk w(b, all);
                w.start = start;
                En e(bv, start);
                size_t pos = start;
                mc::state(mc::mix(mc::mix(uint64_t(k), start), uint64_t(a * 100 + c)));
                w.step(e, pos, a); w.step(e, pos, c);
                En f = e; size_t p = pos;
                w.step(f, p, -2); w.step(f, p, -1); w.step(f, p, 64);
                w.path.resize(2);
                w.step(e, pos, -1); w.step(e, pos, -2); w.step(e, pos, 64);
            }
        }

    if (mc::section("cyclic histories to the end")) {
        ref::sequences(core.size(), 3, [&](std::vector<size_t> const& s) {
            for (int k = 0; k < 10; ++k) {
                if (!mc::mine()) continue;
                std::vector<int> o;
                for (size_t i : s) o.push_back(core[i]);
                MC_DESC("cycle of " << s.size() << " operations on pattern " << k);
                for (size_t n : {64, 191, 1000}) for (size_t st : {0, 5, 63}) { Bits b; ref::add(b, k, n); bang(b, st, o); }
            }
        });
    }

    if (mc::section("long zero runs"))
        for (size_t n : {1, 63, 64, 65, 127, 128, 1000, 4096, 66000, 200000}) for (size_t pre : {0, 1, 17, 63, 64, 100}) for (int how = 0; how < 6; ++how) {
            if (!mc::mine()) continue;
            Bits b; ref::add(b, 1, pre); ref::add(b, 0, n); ref::add(b, 1, 1); ref::add(b, 0, n / 3); ref::add(b, 1, 3);
            MC_DESC(ref::show(b) << " mode " << how);
            mc::state(mc::hash_seq(b, uint64_t(how)));
            bit_vector bv(b);
            Walk w(b, core);
            size_t pos = how == 0 ? 0 : how == 1 ? pre : pre + std::min<size_t>(n, size_t(how - 1) * 13);
            w.start = pos;
            En e(bv, pos);
            if (how == 4) w.step(e, pos, 7);
            if (how == 5) w.step(e, pos, 64);
            while (w.step(e, pos, -2)) {}
        }

    if (mc::cfg != "asan" && mc::section("more than 2^32 bits")) {
        if (mc::mine()) {
            uint64_t B = uint64_t(1) << 32, n = B + 1000;
            MC_DESC(n << " zeros but four ones");
            bit_vector_builder bb(n, 0);
            for (uint64_t p : {uint64_t(3), B - 1, B + 64, B + 700}) bb.set(p, 1);
            bit_vector bv(&bb);
            En e(bv, 1);
            EQ(e.skip_zeros(), uint64_t(2), "first"); EQ(e.position(), uint64_t(4), "position");
            EQ(e.skip_zeros(), B - 5, "second"); EQ(e.position(), B, "position");
            EQ(e.take(64), uint64_t(0), "take"); EQ(e.position(), B + 64, "position");
            EQ(e.next(), true, "next"); EQ(e.skip_zeros(), uint64_t(635), "last"); EQ(e.position(), B + 701, "position");
            En g(bv, B + 690);
            EQ(g.take(20), uint64_t(1) << 10, "take at 2^32");
        }
        if (mc::mine()) { // one run longer than 2^32
            uint64_t B = uint64_t(1) << 32, n = B + 5000;
            MC_DESC(n << " zeros but two ones, the second " << B + 4000 << " after the first");
            bit_vector_builder bb(n, 0);
            bb.set(7, 1); bb.set(B + 4007, 1);
            bit_vector bv(&bb);
            for (int how = 0; how < 3; ++how) {
                En e(bv, 0);
                if (how == 1) e.take(5);
                if (how == 2) { EQ(e.skip_zeros(), uint64_t(7), "first"); EQ(e.take(30), uint64_t(0), "take"); }
                uint64_t at = how == 2 ? 38 : 8;
                if (how < 2) { EQ(e.skip_zeros(), uint64_t(how ? 2 : 7), "first"); }
                EQ(e.skip_zeros(), B + 4007 - at, "zeros skipped");
                EQ(e.position(), B + 4008, "position");
                EQ(e.next(), false, "next"); EQ(e.position(), B + 4009, "position");
            }
        }
    }
}
MC_MAIN
