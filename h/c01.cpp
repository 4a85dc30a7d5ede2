// C01: builder histories vs a plain sequence of bits
#include "ref.hpp"
#include "succinct/bit_vector.hpp"
using namespace succinct;

static uint64_t low(uint64_t v, size_t len) { return len == 64 ? v : v & ((uint64_t(1) << len) - 1); }
static const uint64_t PAT[] = {~uint64_t(0), 0xA5C3F00D9E3779B9ull, 0x8000000000000001ull};

static void verify(bit_vector_builder& b, Bits const& r, const char* who)
{
    EQ(b.size(), r.size(), who << " builder size");
    bit_vector bv(&b);
    EQ(bv.size(), r.size(), who << " size");
    for (size_t i = 0; i < r.size(); ++i) EQ(bv[i], bool(r[i]), who << " bit " << i << " of " << ref::show(r));
    for (size_t i = 0; i < r.size(); i += 64) EQ(bv.get_word(i), ref::word(r, i), who << " word at " << i);
}

struct World {
    bit_vector_builder a, b;
    Bits ra, rb;
    World(size_t size, bool init) : a(size, init), ra(size, init) {
        for (size_t i = 0; i < 70; ++i) { bool v = i % 3 == 0; b.push_back(v); rb.push_back(v); }
    }
};

static void fill(bit_vector_builder& b, Bits& r, size_t n, unsigned salt = 0)
{
    for (size_t i = 0; i < n; ++i) { bool v = ((i + salt) * 7 / 3) % 2; b.push_back(v); r.push_back(v); }
}

struct Op { std::string name; int kind; uint64_t x, y; };
enum { PUSH, SET, SETB, APP, ZEXT, OEXT, APPB, APPSELF_B, REV, SWAP, RES, APPOTHER_TO_B };

static void ref_set_bits(Bits& r, size_t pos, uint64_t v, size_t len)
{
    for (size_t i = 0; i < len; ++i) r[pos + i] = (v >> i) & 1;
}

static bool apply(World& q, Op const& o)
{
    bit_vector_builder& a = q.a;
    Bits& r = q.ra;
    size_t n = r.size();
    switch (o.kind) {
    case PUSH: a.push_back(o.x); r.push_back(uint8_t(o.x)); break;
    case SET: {
        if (!n) return false;
        size_t pos = o.x == 0 ? 0 : o.x == 1 ? n / 2 : n - 1;
        bool v = o.y ? !r[pos] : r[pos];
        a.set(pos, v); r[pos] = v; break;
    }
    case SETB: {
        size_t len, pos;
        switch (o.x) {
        case 0: len = std::min<size_t>(64, n); pos = n - len; break;
        case 1: len = std::min<size_t>(64, n); pos = 0; break;
        case 2: len = std::min<size_t>(33, n); pos = (n - len) / 2; break;
        case 3: if (!n) return false; len = std::min<size_t>(63, n - 1); pos = 1; break;
        case 4: if (!n) return false; len = 1; pos = n - 1; break;
        default: len = 0; pos = n; break;
        }
        uint64_t v = low(o.y ? PAT[1] : ~ref::word(r, pos), len);
        a.set_bits(pos, v, len); ref_set_bits(r, pos, v, len); break;
    }
    case APP: {
        uint64_t v = low(PAT[o.y], o.x);
        a.append_bits(v, o.x);
        for (size_t i = 0; i < o.x; ++i) r.push_back((v >> i) & 1);
        break;
    }
    case ZEXT: a.zero_extend(o.x); r.resize(n + o.x, 0); break;
    case OEXT: a.one_extend(o.x); r.resize(n + o.x, 1); break;
    case APPB: {
        bit_vector_builder t; Bits rt;
        fill(t, rt, o.x, 1);
        a.append(t);
        ref::append(r, rt);
        verify(t, rt, "appended");
        break;
    }
    case APPSELF_B: if (n + q.rb.size() > 3000) return false; a.append(q.b); ref::append(r, q.rb); break;
    case APPOTHER_TO_B: if (n + q.rb.size() > 3000) return false; q.b.append(a); ref::append(q.rb, r); break;
    case REV: a.reverse(); std::reverse(r.begin(), r.end()); break;
    case SWAP: a.swap(q.b); r.swap(q.rb); break;
    case RES: a.reserve(o.x ? n + o.x : 0); break;
    }
    return true;
}

static std::vector<Op> full_menu()
{
    std::vector<Op> m;
    auto add = [&](const char* n, int k, uint64_t x = 0, uint64_t y = 0) {
        std::ostringstream os; os << n << "(" << x << "," << y << ")"; m.push_back(Op{os.str(), k, x, y}); };
    add("push_back", PUSH, 0); add("push_back", PUSH, 1);
    add("reverse", REV); add("swap", SWAP); add("append_other", APPSELF_B); add("append_to_other", APPOTHER_TO_B);
    add("reserve", RES, 0); add("reserve", RES, 5000);
    for (uint64_t p = 0; p < 3; ++p) add("set_flip", SET, p, 1);
    for (uint64_t p = 0; p < 6; ++p) add("set_bits", SETB, p, 0);
    add("set_bits", SETB, 0, 1); add("set_bits", SETB, 2, 1);
    for (uint64_t l : {0, 1, 7, 63, 64}) for (uint64_t y = 0; y < 2; ++y) if (l || !y) add("append_bits", APP, l, y);
    for (uint64_t l : {0, 1, 63, 64, 65, 200}) { add("zero_extend", ZEXT, l); add("one_extend", OEXT, l); }
    for (uint64_t l : {0, 1, 63, 64, 65, 130}) add("append_new", APPB, l);
    return m;
}

static void histories(const char* name, std::vector<Op> const& menu, std::vector<std::pair<size_t, bool>> const& starts, size_t depth)
{
    if (!mc::section(name)) return;
    for (auto const& st : starts)
        ref::sequences(menu.size(), depth, [&](std::vector<size_t> const& s) {
            if (!mc::mine()) return;
            if (mc::want_desc) {
                std::ostringstream os;
                os << "builder(" << st.first << "," << st.second << ")";
                for (size_t i : s) os << "; " << menu[i].name;
                mc::desc(os.str());
            }
            World q(st.first, st.second);
            for (size_t i : s) {
                apply(q, menu[i]);
                EQ(q.a.size(), q.ra.size(), "size during history");
                EQ(q.b.size(), q.rb.size(), "other size during history");
            }
            mc::state(mc::hash_seq(q.ra, mc::hash_seq(q.rb)));
            verify(q.a, q.ra, "result");
            verify(q.b, q.rb, "other");
        });
}

void explore()
{
    std::vector<std::pair<size_t, bool>> starts;
    for (size_t s : {0, 1, 63, 64, 65, 128, 130}) { starts.push_back({s, false}); if (s) starts.push_back({s, true}); }

    size_t N = mc::thorough ? 200 : 131;

    if (mc::section("sized construction"))
        for (size_t n = 0; n <= 300; ++n) for (int init = 0; init < 2; ++init) for (int tail = 0; tail < 3; ++tail) {
            if (!mc::mine()) continue;
            MC_DESC("builder(" << n << "," << init << ") tail " << tail);
            bit_vector_builder b(n, init); Bits r(n, uint8_t(init));
            if (tail == 1) fill(b, r, 3);
            if (tail == 2) { b.append_bits(PAT[1], 64); ref::append(r, ref::from_int(PAT[1], 64)); }
            mc::state(mc::hash_seq(r));
            verify(b, r, "result");
        }

    if (mc::section("append_bits at every alignment"))
        for (size_t s = 0; s < N; ++s) for (size_t len = 0; len <= 64; ++len) for (int p = 0; p < 3; ++p) for (int res = 0; res < 2; ++res) {
            if (!mc::mine()) continue;
            MC_DESC(s << " bits, append_bits(len " << len << ", pattern " << p << "), push_back, append_bits 64");
            bit_vector_builder b; Bits r;
            if (res) b.reserve(s + 70);
            fill(b, r, s);
            uint64_t v = low(PAT[p], len);
            b.append_bits(v, len); ref::append(r, ref::from_int(v, len));
            b.push_back(1); r.push_back(1);
            b.append_bits(PAT[1], 64); ref::append(r, ref::from_int(PAT[1], 64));
            mc::state(mc::hash_seq(r));
            verify(b, r, "result");
        }

    if (mc::section("set_bits at every position and length"))
        for (size_t n : {1, 64, 65, 128, 191, 192, 200}) for (size_t pos = 0; pos <= n; ++pos) for (size_t len = 0; len <= 64 && pos + len <= n; ++len) for (int p = 0; p < 4; ++p) {
            if (!mc::mine()) continue;
            MC_DESC(n << " bits, set_bits(" << pos << "," << len << ") pattern " << p);
            bit_vector_builder b(n, p == 3); Bits r(n, p == 3);
            if (p != 3) for (size_t i = 0; i < n; ++i) { b.set(i, i % 3 == 1); r[i] = i % 3 == 1; }
            uint64_t v = low(p == 3 ? 0 : PAT[p], len);
            b.set_bits(pos, v, len); ref_set_bits(r, pos, v, len);
            mc::state(mc::hash_seq(r));
            verify(b, r, "result");
        }

    if (mc::section("append at every pair of alignments"))
        for (size_t s = 0; s < N; ++s) for (size_t t = 0; t < N; ++t) for (int p = 0; p < 2; ++p) {
            if (!mc::mine()) continue;
            MC_DESC(s << " bits append " << t << " bits, pattern " << p << ", then push_back, append_bits");
            bit_vector_builder b, o; Bits r, ro;
            fill(b, r, s);
            if (p) { o.one_extend(t); ro.resize(t, 1); } else fill(o, ro, t, 1);
            b.append(o); ref::append(r, ro);
            b.push_back(1); r.push_back(1);
            b.append_bits(5, 4); ref::append(r, ref::from_int(5, 4));
            mc::state(mc::hash_seq(r));
            verify(b, r, "result");
            verify(o, ro, "appended");
        }

    if (mc::section("extend at every pair of alignments"))
        for (size_t s = 0; s < N; ++s) for (size_t t = 0; t < 2 * N; ++t) for (int p = 0; p < 2; ++p) {
            if (!mc::mine()) continue;
            MC_DESC(s << " bits " << (p ? "one" : "zero") << "_extend " << t << ", then push_back, append_bits");
            bit_vector_builder b; Bits r;
            fill(b, r, s);
            if (p) b.one_extend(t); else b.zero_extend(t);
            r.resize(s + t, uint8_t(p));
            b.push_back(1); r.push_back(1);
            b.append_bits(9, 4); ref::append(r, ref::from_int(9, 4));
            mc::state(mc::hash_seq(r));
            verify(b, r, "result");
        }

    if (mc::section("reverse at every length"))
        for (size_t s = 0; s < 4 * N; ++s) for (int p = 0; p < 4; ++p) for (int tail = 0; tail < 4; ++tail) {
            if (!mc::mine()) continue;
            MC_DESC(s << " bits pattern " << p << " reverse, tail " << tail);
            bit_vector_builder b; Bits r, pat;
            ref::add(pat, p == 0 ? 1 : p == 1 ? 6 : p == 2 ? 0 : 3, s);
            if (p == 2 && s) pat[s - 1] = 1;
            for (auto v : pat) b.push_back(v);
            r = pat;
            b.reverse(); std::reverse(r.begin(), r.end());
            if (tail == 1) fill(b, r, 5);
            if (tail == 2) { b.reverse(); std::reverse(r.begin(), r.end()); b.append_bits(3, 3); ref::append(r, ref::from_int(3, 3)); }
            if (tail == 3) { b.zero_extend(70); r.resize(r.size() + 70); b.push_back(1); r.push_back(1); b.reverse(); std::reverse(r.begin(), r.end()); }
            mc::state(mc::hash_seq(r));
            verify(b, r, "result");
        }

    std::vector<Op> menu = full_menu();
    histories("histories, full alphabet", menu, starts, mc::thorough ? 4 : 3);

    std::vector<Op> small;
    for (auto const& o : menu)
        if (o.kind == SWAP || o.kind == REV || (o.kind == PUSH && o.x == 1) || (o.kind == RES && o.x) || o.kind == APPSELF_B
            || (o.kind == APP && o.x == 63 && o.y == 0) || (o.kind == APP && o.x == 64 && o.y == 1) || (o.kind == ZEXT && o.x == 1) || (o.kind == OEXT && o.x == 65)
            || (o.kind == SETB && o.x == 0 && o.y == 0)) small.push_back(o);
    histories("histories, core alphabet", small, {{0, false}, {64, true}, {63, false}}, mc::thorough ? 7 : 5);

    if (mc::cfg != "asan" && mc::section("more than 2^32 bits")) {
        for (int how = 0; how < 2; ++how) {
            if (!mc::mine()) continue;
            MC_DESC("2^32 + 37 bits by " << (how ? "one_extend" : "zero_extend") << " then pushes, append, set");
            bit_vector_builder b;
            uint64_t n = (uint64_t(1) << 32) + 37;
            b.push_back(!how);
            if (how) b.one_extend(n - 1); else b.zero_extend(n - 1);
            b.push_back(!how);
            b.append_bits(PAT[1], 64);
            b.set((uint64_t(1) << 32) + 1, !how);
            EQ(b.size(), n + 65, "size");
            bit_vector bv(&b);
            EQ(bv.size(), n + 65, "size");
            uint64_t diff = 0;
            uint64_t bg = how ? ~uint64_t(0) : 0;
            for (uint64_t p = 0; p + 64 <= uint64_t(1) << 32; p += 64) {
                uint64_t x = bv.get_word(p) ^ bg;
                if (x) { ++diff; EQ(p, uint64_t(0), "unexpected word"); EQ(x, uint64_t(1), "first word"); }
            }
            EQ(diff, uint64_t(1), "words differing from the background");
            for (uint64_t p = uint64_t(1) << 32; p < n; ++p) EQ(bv[p], (p == (uint64_t(1) << 32) + 1) ? !how : bool(how), "bit " << p);
            EQ(bv[n], !how, "pushed bit");
            for (uint64_t i = 0; i < 64; ++i) EQ(bv[n + 1 + i], bool((PAT[1] >> i) & 1), "appended bit " << i);
        }
    }
}
MC_MAIN
