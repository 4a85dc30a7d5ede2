// C17: the frozen image is a function of the content: same bytes whatever the memory, the construction path, earlier
// queries or mapping; and the same bytes as the released library writes, which in turn map back
#include "zoobox.hpp"
using namespace box;

static int g_fill = 0;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, g_fill, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

__attribute__((noinline)) static void dirty_stack(int fill)
{
    volatile char a[60000];
    for (size_t i = 0; i < sizeof a; ++i) a[i] = char(fill);
}

void released(size_t i, Vals const* ints, Bits const* bits, Bits const* parens, std::string const& file, std::string& image, Dump& dump);

static void bytes_are(std::string const& got, std::string const& want, std::string const& how)
{
    EQ(got.size(), want.size(), how << ": image size");
    for (size_t i = 0; i < got.size(); ++i) if (got[i] != want[i]) EQ(int((unsigned char)got[i]), int((unsigned char)want[i]), how << ": byte " << i);
    mc::checks += got.size() / 8;
}

struct Images {
    std::vector<Content> const& cs; bool deep;
    template <class Z> void operator()(size_t zi)
    {
        for (size_t ci = 0; ci <= cs.size(); ++ci) {
            if (!mc::mine()) continue;
            bool def = ci == cs.size();
            std::ostringstream how; how << (def ? "default " : "") << Z::name();
            if (!def) how << " of " << show(cs[ci]);
            if (mc::want_desc) mc::desc(how.str());
            std::string rel; Dump rel_dump;
            g_fill = 0;
            if (def) released(zi, 0, 0, 0, path("r"), rel, rel_dump);
            else released(zi, &cs[ci].ints, &cs[ci].bits, &cs[ci].parens, path("r"), rel, rel_dump);
            mc::state(mc::hash_seq(rel, mc::mix(zi, ci)));
            static const int fills[] = {0x00, 0xFF, 0x5A};
            for (size_t p = 0; p < (def ? 1 : Z::npaths()); ++p) for (int fill : fills) {
                std::ostringstream h; h << how.str() << ", construction path " << p << ", memory filled with " << fill;
                g_fill = fill;
                std::unique_ptr<Obj<Z>> o;
                dirty_stack(fill);
                if (def) { void* m = ::operator new(sizeof(typename Z::type)); ::operator delete(m); o.reset(new Obj<Z>()); }
                else o.reset(new Obj<Z>(cs[ci], int(p), fill));
                bytes_are(zoo::frozen(**o, path("i")), rel, h.str());
                if (fill == 0x5A || deep) {
                    Dump d = zoo::observe<Z>(**o);
                    same(d, rel_dump, h.str() + ": compared with the released library");
                    bytes_are(zoo::frozen(**o, path("i")), rel, h.str() + ", after all queries");
                    // through swap
                    Obj<Z> q;
                    (*q).swap(**o);
                    bytes_are(zoo::frozen(*q, path("i")), rel, h.str() + ", after a swap");
                }
            }
            // an image of the released library, mapped by this one
            g_fill = 0xFF;
            Buffer b(rel, 0);
            Obj<Z> m;
            EQ(mapper::map(*m, b.p), rel.size(), how.str() << ": mapping the released image");
            same(zoo::observe<Z>(*m), rel_dump, how.str() + ": released image mapped");
            bytes_are(zoo::frozen(*m, path("i")), rel, how.str() + ": released image mapped and frozen");
        }
    }
};

void explore()
{
    std::vector<Content> cs = contents(mc::thorough ? 6 : 4);
    if (mc::section("every structure, content, path and memory filling")) { Images i{cs, mc::thorough}; zoo::each(i); }
    // every bit string of up to 10 (12) bits, every balanced sequence among them
    std::vector<Content> small;
    for (size_t n = 0; n <= (mc::thorough ? 12u : 8u); ++n) for (uint64_t x = 0; x < uint64_t(1) << n; ++x) {
        Content c; c.bits = ref::from_int(x, n);
        Vals v; uint64_t g = 0; for (uint8_t b : c.bits) { if (b) { v.push_back(g); g = 0; } else ++g; }
        c.ints = v; c.parens = zoo::parens_of(v, false);
        small.push_back(c);
    }
    if (mc::section("every short bit string")) { Images i{small, false}; zoo::each(i); }
    // runs: block and hint boundaries, sparse and dense directories, many blocks of parentheses
    std::vector<Content> runs;
    auto menu = ref::segs({0, 1, 2, 3}, {1, 64, 511, 1024, 2050});
    ref::sequences(menu.size(), mc::thorough ? 2 : 2, [&](std::vector<size_t> const& s) {
        Content c; c.bits = ref::make(menu, s);
        for (size_t i = 0; i < c.bits.size() / 3; ++i) c.ints.push_back((c.bits[i] ? 7 : 0) + (i * i) % 5 + s[0]);
        int64_t e = 0;      // balance the run string into parentheses
        for (uint8_t b : c.bits) { if (!b && e == 0) continue; c.parens.push_back(b); e += b ? 1 : -1; }
        while (e-- > 0) c.parens.push_back(0);
        runs.push_back(c);
    });
    if (mc::section("runs")) { Images i{runs, false}; zoo::each(i); }
    std::vector<Content> big;
    for (int k = 0; k < (mc::thorough ? 12 : 6); ++k) {
        Content c;
        size_t n = 40000 + size_t(k) * 9000;
        for (size_t i = 0; i < n; ++i) c.ints.push_back(k % 3 == 0 ? i % 3 : k % 3 == 1 ? (i * 2654435761u >> 7) % 70 : n - i);
        for (size_t i = 0; i < n * 3; ++i) c.bits.push_back(k % 3 == 0 ? (i * i % 7 == 1) : k % 3 == 1 ? i % 97 == 0 || i > n * 2 : i % 2000 > 1000 || i % 911 == 0);
        c.parens = zoo::parens_of(Vals(c.ints.begin(), c.ints.begin() + 30000), false);
        big.push_back(c);
    }
    if (mc::section("large contents")) { Images i{big, false}; zoo::each(i); }
}
MC_MAIN
