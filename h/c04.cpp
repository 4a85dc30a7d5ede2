// C04: cursor over ones, all interleavings of next / skip / skip_no_move / skip0.
// Model: a position and the set of ones still ahead; a one returned by next() counts as cleared.
#include "ref.hpp"
#include "succinct/bit_vector.hpp"
using namespace succinct;
typedef bit_vector::unary_enumerator En;

struct Op { int kind; uint64_t k; };   // 0 next, 1 skip, 2 skip_no_move, 3 skip0
static const char* NM[] = {"next", "skip", "skip_no_move", "skip0"};

struct St { size_t pos; bool cleared; };   // cleared: the one at pos has been returned by next

struct Walk {
    Bits const& b;
    std::vector<size_t> ones, zeros;        // positions
    std::vector<size_t> r1, r0;             // ranks
    size_t start;
    std::vector<Op> path;

    Walk(Bits const& b_) : b(b_), r1(b_.size() + 1), r0(b_.size() + 1)
    {
        for (size_t i = 0; i < b.size(); ++i) {
            r1[i] = ones.size(); r0[i] = zeros.size();
            (b[i] ? ones : zeros).push_back(i);
        }
        r1[b.size()] = ones.size(); r0[b.size()] = zeros.size();
    }

    std::string where() const
    {
        std::ostringstream os;
        os << "unary_enumerator(" << start << ")";
        for (auto const& o : path) { os << "." << NM[o.kind]; if (o.kind) os << "(" << o.k << ")"; }
        os << " on " << ref::show(b);
        return os.str();
    }

    // position of the k-th remaining one at or after the cursor, or -1
    int64_t kth1(St const& s, uint64_t k) const
    {
        size_t r = r1[s.pos] + (s.cleared ? 1 : 0) + k;
        return r < ones.size() ? int64_t(ones[r]) : -1;
    }
    // k-th zero at or after the cursor; a returned one counts as a zero
    int64_t kth0(St const& s, uint64_t k) const
    {
        if (s.cleared) { if (!k) return int64_t(s.pos); --k; }
        size_t r = r0[s.pos] + k;
        return r < zeros.size() ? int64_t(zeros[r]) : -1;
    }

    bool step(En& e, St& s, Op o)
    {
        path.push_back(o);
        int64_t t;
        switch (o.kind) {
        case 0:
            t = kth1(s, 0);
            if (t < 0) break;
            EQ(e.next(), uint64_t(t), where());
            s.pos = size_t(t); s.cleared = true;
            EQ(e.position(), uint64_t(t), where());
            return true;
        case 1:
            t = kth1(s, o.k);
            if (t < 0) break;
            e.skip(o.k);
            s.pos = size_t(t); s.cleared = false;
            EQ(e.position(), uint64_t(t), where());
            return true;
        case 2: {
            t = kth1(s, o.k);
            if (t < 0) break;
            uint64_t before = e.position();
            EQ(e.skip_no_move(o.k), uint64_t(t), where());
            EQ(e.position(), before, where());
            return true;
        }
        case 3:
            t = kth0(s, o.k);
            if (t < 0) break;
            e.skip0(o.k);
            // landing on a returned one: it stays cleared
            s.cleared = s.cleared && size_t(t) == s.pos;
            s.pos = size_t(t);
            EQ(e.position(), uint64_t(t), where());
            return true;
        }
        path.pop_back();
        return false;
    }

    void dfs(En const& e, St const& s, std::vector<Op> const& ops, size_t depth)
    {
        if (!depth) return;
        for (auto const& o : ops) {
            En f = e; St t = s;
            if (!step(f, t, o)) continue;
            dfs(f, t, ops, depth - 1);
            path.pop_back();
        }
    }
};

static std::vector<Op> ops_of(std::vector<uint64_t> const& ks)
{
    std::vector<Op> r;
    r.push_back(Op{0, 0});
    for (int kind = 1; kind < 4; ++kind) for (uint64_t k : ks) r.push_back(Op{kind, k});
    return r;
}

static void run(Bits const& b, std::vector<Op> const& ops, std::vector<size_t> const& starts, size_t depth)
{
    bit_vector bv(b);
    Walk w(b);
    MC_DESC(ref::show(b) << ", starts " << starts.size() << ", depth " << depth);
    for (size_t s : starts) {
        if (s >= b.size()) continue;
        mc::state(mc::hash_seq(b, s));
        w.start = s; w.path.clear();
        En e(bv, s);
        EQ(e.position(), uint64_t(s), "initial position");
        w.dfs(e, St{s, false}, ops, depth);
    }
}

void explore()
{
    std::vector<size_t> every(400);
    for (size_t i = 0; i < every.size(); ++i) every[i] = i;

    size_t N = mc::thorough ? 12 : 9;
    if (mc::section("every bit string, every start"))
        for (size_t n = 1; n <= N; ++n) for (uint64_t x = 0; x < uint64_t(1) << n; ++x)
            if (mc::mine()) run(ref::from_int(x, n), ops_of({0, 1, 2, 3}), every, 3);

    if (mc::section("every window across a word boundary"))
        for (size_t off = 0; off <= 8; ++off) for (int bg = 0; bg < 2; ++bg) for (uint64_t x = 0; x < 256; ++x) {
            if (!mc::mine()) continue;
            Bits b(64 - off, uint8_t(bg)); ref::append(b, ref::from_int(x, 8)); ref::add(b, bg, 60);
            std::vector<size_t> st;
            for (size_t i = 52; i < 76; ++i) st.push_back(i);
            st.push_back(0); st.push_back(1);
            run(b, ops_of({0, 1, 2, 8, 55, 64}), st, 2);
        }

    auto menu = ref::segs({0, 1, 2, 3, 4, 6}, {1, 40, 63, 64, 65, 130});
    if (mc::section("runs, every start"))
        ref::sequences(menu.size(), 2, [&](std::vector<size_t> const& s) {
            if (!mc::mine()) return;
            run(ref::make(menu, s), ops_of({0, 1, 5, 31, 63, 64, 65, 100}), every, s.size() == 1 ? 2 : mc::thorough ? 2 : 1);
        });

    if (mc::section("deep histories"))
        for (int k = 0; k < 10; ++k) for (size_t n : {64, 128, 200, 450}) for (size_t s : {0, 1, 33, 63, 64}) {
            if (!mc::mine()) continue;
            Bits b; ref::add(b, k, n);
            run(b, ops_of({0, 1, 3, 63}), {s}, mc::thorough ? 6 : 5);
        }

    if (mc::section("deep histories over three runs")) {
        auto m3 = ref::segs({0, 1, 2}, {1, 30, 64, 100});
        ref::sequences(m3.size(), 3, [&](std::vector<size_t> const& s) {
            if (!mc::mine()) return;
            run(ref::make(m3, s), ops_of({0, 1, 40}), {0, 1, 31, 63}, mc::thorough ? 4 : 3);
        }, 3);
    }

    if (mc::section("long skips"))
        for (int k = 0; k < 10; ++k) for (size_t n : {1000, 5000, 70000}) for (size_t s : {0, 1, 63, 64, 129}) {
            if (!mc::mine()) continue;
            Bits b; ref::add(b, k, n);
            if (k < 2) for (size_t i = 0; i < n; i += 997) b[i] ^= 1;
            MC_DESC("pattern " << k << " of " << n << " bits from " << s);
            mc::state(mc::hash_seq(b, s));
            bit_vector bv(b);
            Walk w(b);
            w.start = s;
            for (int mid = 0; mid < 3; ++mid)
                for (uint64_t q = 0; q < 2; ++q) {
                    size_t cnt = q ? w.zeros.size() : w.ones.size();
                    for (uint64_t kk : {uint64_t(0), uint64_t(1), uint64_t(63), uint64_t(64), uint64_t(65), uint64_t(127), uint64_t(128), uint64_t(512), uint64_t(1023), uint64_t(4096), uint64_t(cnt / 2), uint64_t(cnt * 3 / 4)}) {
                        w.path.clear();
                        En e(bv, s); St st{s, false};
                        if (mid == 1) w.step(e, st, Op{0, 0});
                        if (mid == 2) w.step(e, st, Op{3, 2});
                        if (q) w.step(e, st, Op{3, kk});
                        else { w.step(e, st, Op{2, kk}); w.step(e, st, Op{1, kk}); }
                        w.step(e, st, Op{0, 0}); w.step(e, st, Op{3, 1}); w.step(e, st, Op{1, 1}); w.step(e, st, Op{2, 0});
                    }
                }
            // visiting all of them
            w.path.clear();
            En e(bv, s); St st{s, false};
            while (w.step(e, st, Op{0, 0})) w.path.clear();
        }

    if (mc::cfg != "asan" && mc::section("more than 2^32 bits")) {
        for (int v = 0; v < 2; ++v) {
            if (!mc::mine()) continue;
            uint64_t B = uint64_t(1) << 32, n = B + 1000;
            MC_DESC(n << " bits of " << v << " but four");
            bit_vector_builder bb(n, v);
            std::vector<uint64_t> odd = {3, B - 1, B + 64, B + 700};
            for (auto p : odd) bb.set(p, !v);
            bit_vector bv(&bb);
            if (!v) {
                En e(bv, 1);
                for (auto p : odd) { EQ(e.next(), p, "next"); EQ(e.position(), p, "position"); }
                En f(bv, 0);
                EQ(f.skip_no_move(2), B + 64, "skip_no_move");
                f.skip(1); EQ(f.position(), B - 1, "skip");
                f.skip0(1); EQ(f.position(), B + 1, "skip0"); // the zeros after B-1 are B, B+1
                f.skip(1); EQ(f.position(), B + 700, "skip");
                En g(bv, 5);
                g.skip0(B); EQ(g.position(), B + 6, "skip0 over 2^32 zeros");
            } else {
                En e(bv, 1);
                e.skip0(0); EQ(e.position(), uint64_t(3), "skip0");
                e.skip0(1); EQ(e.position(), B - 1, "skip0");
                e.skip0(2); EQ(e.position(), B + 700, "skip0");
                En f(bv, 0);
                EQ(f.skip_no_move(B), B + 2, "skip_no_move over 2^32 ones");
                f.skip(B + 5); EQ(f.position(), B + 7, "skip over 2^32 ones");
                EQ(f.next(), B + 7, "next");
            }
        }
    }
    if (mc::cfg != "asan" && mc::section("one move over more than 2^32 bits"))
        for (int v = 0; v < 2; ++v) {
            if (!mc::mine()) continue;
            uint64_t B = uint64_t(1) << 32, n = B + 9000;
            MC_DESC(n << " bits of " << v << " but two");
            bit_vector_builder bb(n, v);
            bb.set(9, !v); bb.set(B + 8000, !v);
            bit_vector bv(&bb);
            for (uint64_t s : {uint64_t(0), uint64_t(9), uint64_t(10), uint64_t(64)}) {
                std::ostringstream os; os << "from " << s << ": "; std::string at = os.str();
                uint64_t first = s <= 9 ? 9 : B + 8000;
                if (!v) {
                    { En e(bv, s); EQ(e.next(), first, at << "next"); EQ(e.position(), first, at << "position"); }
                    { En e(bv, s); EQ(e.skip_no_move(s <= 9), B + 8000, at << "skip_no_move"); EQ(e.position(), s, at << "position"); }
                    { En e(bv, s); e.skip(s <= 9); EQ(e.position(), B + 8000, at << "skip"); EQ(e.next(), B + 8000, at << "next"); }
                    if (s <= 9) { En e(bv, s); e.next(); EQ(e.next(), B + 8000, at << "second next"); EQ(e.position(), B + 8000, at << "position"); }
                    for (uint64_t k : {B - 1, B, B + 1, B + 700, B + 7000}) {
                        uint64_t want = s + k + (s <= 9);
                        En e(bv, s); e.skip0(k); EQ(e.position(), want, at << "skip0(" << k << ")");
                        EQ(e.next(), B + 8000, at << "next after skip0(" << k << ")");
                    }
                } else {
                    { En e(bv, s); e.skip0(0); EQ(e.position(), first, at << "skip0(0)"); }
                    if (s <= 9) { En e(bv, s); e.skip0(1); EQ(e.position(), B + 8000, at << "skip0(1)"); }
                    for (uint64_t k : {B - 1, B, B + 1, B + 700, B + 7000}) {
                        uint64_t want = s + k + (s <= 9);
                        En e(bv, s);
                        EQ(e.skip_no_move(k), want, at << "skip_no_move(" << k << ")"); EQ(e.position(), s, at << "position");
                        e.skip(k); EQ(e.position(), want, at << "skip(" << k << ")");
                        EQ(e.next(), want, at << "next"); EQ(e.next(), want + 1, at << "next");
                    }
                }
            }
        }
}
MC_MAIN
