// C27: every allocation, every read of the input and every comparison failing in turn
#include "zoobox.hpp"
#include <boost/range/iterator_range.hpp>
#include <boost/iterator/iterator_facade.hpp>
using namespace box;

// live allocations, and the one that is to fail
static int64_t g_live = 0, g_left = -1;
static bool g_sticky = false, g_hit = false;
struct Thrown { int x; };
static bool strike() { if (g_left < 0) return false; if (g_left == 0) { g_hit = true; if (!g_sticky) g_left = -1; return true; } --g_left; return false; }
static bool g_alloc = false, g_input = false;
static void* take(size_t n)
{
    if (g_alloc && strike()) throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    memset(p, 0xC7, n);
    ++g_live;
    return p;
}
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void operator delete(void* p) noexcept { if (p) --g_live; free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
enum Kind { ALLOC, ALLOC_ALL, INPUT };

// f runs with the k-th event failing, for every k until it runs through; after(failed) looks at what is left
template <class F, class A> static size_t every(Kind kind, std::string const& how, F f, A after)
{
    static const char* names[] = {"allocation", "allocation and all after it", "read of the input"};
    f(); after(false);          // what is allocated once per process is there from now on
    for (int64_t k = 0;; ++k) {
        int64_t base = g_live;
        int r = 0;
        g_hit = false; g_left = k; g_sticky = kind == ALLOC_ALL;
        g_alloc = kind != INPUT; g_input = kind == INPUT;
        try { f(); }
        catch (std::bad_alloc const&) { r = 1; }
        catch (Thrown const&) { r = 2; }
        catch (...) { r = 3; }
        g_left = -1; g_alloc = g_input = false;
        bool hit = g_hit;
        ++mc::checks;
        int want = !hit ? 0 : kind == INPUT ? 2 : 1;
        if (r != want) EQ(r, want, how << ": outcome when " << names[kind] << " number " << k << " fails (0 none, 1 bad_alloc, 2 the input's exception, 3 another)");
        after(hit);
        if (g_live != base) EQ(g_live, base, how << ": allocations left over when " << names[kind] << " number " << k << " failed");
        mc::outcome(mc::mix(uint64_t(k), hit));
        if (!hit) return size_t(k);
    }
}
template <class F> static size_t every(Kind kind, std::string const& how, F f) { return every(kind, how, f, [](bool) {}); }
static const Kind both[] = {ALLOC, ALLOC_ALL};

// values that may fail to be read
template <class T> struct Reader : boost::iterator_facade<Reader<T>, T, boost::random_access_traversal_tag, T> {
    T const* p;
    Reader(T const* q = 0) : p(q) {}
private:
    friend class boost::iterator_core_access;
    T dereference() const { if (g_input && strike()) throw Thrown(); return *p; }
    void increment() { ++p; }
    void decrement() { --p; }
    void advance(std::ptrdiff_t n) { p += n; }
    std::ptrdiff_t distance_to(Reader const& o) const { return o.p - p; }
    bool equal(Reader const& o) const { return p == o.p; }
};
template <class T> static boost::iterator_range<Reader<T>> reading(std::vector<T> const& v) { return boost::iterator_range<Reader<T>>(Reader<T>(v.data()), Reader<T>(v.data() + v.size())); }
struct Less { bool operator()(uint64_t a, uint64_t b) const { if (g_input && strike()) throw Thrown(); return a < b; } };

struct Building {
    std::vector<Content> const& cs;
    template <class Z> void operator()(size_t zi)
    {
        typedef typename Z::type T;
        for (size_t ci = 0; ci < cs.size() + 1; ++ci) for (size_t p = 0; p < Z::npaths(); ++p) {
            if (ci == cs.size() && p) break;
            if (!mc::mine()) continue;
            std::string how = std::string(Z::name()) + (ci == cs.size() ? std::string(" default-constructed") : " path " + std::to_string(p) + " with " + show(cs[ci]));
            if (mc::want_desc) mc::desc(how);
            mc::state(mc::mix(mc::mix(zi, ci), p));
            typename std::aligned_storage<sizeof(T), alignof(T)>::type m;
            Dump want;
            std::string img;
            auto make = [&] { memset(&m, 0x5A, sizeof m); return ci == cs.size() ? new (&m) T() : Z::make(&m, cs[ci], int(p)); };
            // how many allocations that is; ways that take one per bit are left to the smaller contents
            g_left = int64_t(1) << 60; g_sticky = false; g_alloc = true;
            { T* t = make(); t->~T(); }
            g_alloc = false;
            size_t count = size_t((int64_t(1) << 60) - g_left);
            g_left = -1;
            size_t work = count * (ci < cs.size() ? cs[ci].bits.size() + cs[ci].ints.size() : 0);
            if (work > (mc::thorough ? 300000000u : 50000000u)) continue;
            { T* t = make(); want = zoo::observe<Z>(*t); img = zoo::frozen(*t, path("a")); t->~T(); }
            for (Kind kind : both) {
                T* t = 0;
                every(kind, how + ", building", [&] { t = 0; t = make(); }, [&](bool failed) {
                    if (failed) return;
                    same(zoo::observe<Z>(*t), want, how + " after the failed attempts"); t->~T();
                });
            }
            if (p) continue;
            // what does not change the structure leaves it as it was; what replaces it leaves something that can be replaced again
            Obj<Z>* o = ci == cs.size() ? new Obj<Z>() : new Obj<Z>(cs[ci]);
            Buffer buf(img, 8 - sizeof(void*) % 8);
            for (Kind kind : both) {
                every(kind, how + ", size tree", [&] { mapper::size_tree_of(**o); }, [&](bool) { });
                every(kind, how + ", size", [&] { mapper::size_of(**o); });
                same(zoo::observe<Z>(**o), want, how + " after failed size trees");
                if (zoo::frozen(**o, path("a")) != img) OK(false, how << ": image after failed size trees");
                {
                    Obj<Z> b(zoo::content(1));
                    every(kind, how + ", swapping", [&] { (**o).swap(*b); (**o).swap(*b); });
                    same(zoo::observe<Z>(**o), want, how + " swapped twice");
                }
                every(kind, how + ", mapping", [&] { T t; mapper::map(t, buf.p); mapper::map(t, buf.p); });
                {
                    // over a built one: the old content is released in any case
                    std::unique_ptr<Obj<Z>> b;
                    every(kind, how + ", mapping over a built one", [&] {
                        g_alloc = false; b.reset(new Obj<Z>(zoo::content(1))); g_alloc = true;
                        mapper::map(**b, buf.p);
                    }, [&](bool) {
                        mapper::map(**b, buf.p);
                        same(zoo::observe<Z>(**b), want, how + " mapped again after a failure");
                        b.reset();
                    });
                }
            }
            OK(buf.intact(), how << ": mapped bytes changed");
            delete o;
        }
    }
};
template <class L> static void list_from(const char* name, Vals const& v, bool sum_fits)
{
    if (!sum_fits) return;
    std::string how = std::string(name) + " from " + std::to_string(v.size()) + " values";
    for (Kind k : {ALLOC, ALLOC_ALL, INPUT}) every(k, how, [&] { L t(reading(v)); if (t.size() != v.size()) OK(false, how << ": size"); });
}
template <class E> static void vectors(const char* name, Vals const& w)
{
    std::vector<E> v(w.begin(), w.end());
    std::string how = std::string("mappable_vector<") + name + "> of " + std::to_string(v.size());
    typedef mapper::mappable_vector<E> M;
    auto shows = [&](M const& m, std::vector<E> const& x) { if (m.size() != x.size()) return false; for (size_t i = 0; i < x.size(); ++i) if (m[i] != x[i]) return false; return true; };
    std::vector<E> none;
    // what is there before: as many elements, fewer, more
    for (size_t len : {v.size(), v.size() / 2, v.size() + 3}) for (Kind k : {ALLOC, ALLOC_ALL, INPUT}) {
        std::vector<E> old(len, E(7));
        every(k, how + ", from a range", [&] { auto r = reading(v); M m(r); OK(shows(m, v), how); });
        every(k, how + ", from a vector", [&] { M m(v); OK(shows(m, v), how); });
        for (int start = 0; start < 3; ++start) {
            std::unique_ptr<M> m;
            auto begin = [&] { bool a = g_alloc; g_alloc = false; m.reset(start == 0 ? new M() : start == 1 ? new M(old) : new M(none)); g_alloc = a; };
            auto valid = [&](const char* what, bool failed) {
                OK(failed ? shows(*m, v) || shows(*m, old) || shows(*m, none) : shows(*m, v), how << ", " << what << ": the vector shows something else than the old, the new or no content");
                // and can be used again
                m->assign(old); OK(shows(*m, old), how << ": assigned again after " << what);
                m->clear(); OK(shows(*m, none), how << ": cleared after " << what);
                m.reset();
            };
            every(k, how + ", assign", [&] { begin(); m->assign(reading(v)); }, [&](bool f) { valid("assign", f); });
            every(k, how + ", assign a vector", [&] { begin(); m->assign(v); }, [&](bool f) { valid("assign a vector", f); });
            {
                std::vector<E>* s = 0;
                every(k, how + ", steal", [&] { bool a = g_alloc; g_alloc = false; s = new std::vector<E>(v); g_alloc = a; begin(); m->steal(*s); }, [&](bool f) { delete s; valid("steal", f); });
            }
            every(k, how + ", clear and swap", [&] { begin(); M n; m->swap(n); n.clear(); m->swap(n); m->clear(); }, [&](bool) { m.reset(); });
        }
    }
}
static void queries(Vals const& v)
{
    std::string how = "top-k over " + std::to_string(v.size()) + " values";
    topk_vector<mapper::mappable_vector<uint64_t>> t(v);
    cartesian_tree c(v, Less());
    size_t n = v.size();
    for (size_t a = 0; a < n; a += 1 + n / 4) for (size_t b = a; b < n; b += 1 + n / 3) for (size_t k : {size_t(1), size_t(3), n + 1}) {
        typedef topk_vector<mapper::mappable_vector<uint64_t>> T;
        T::entry_vector_type want = t.topk(a, b, k);
        for (Kind kind : both) {
            every(kind, how, [&] { T::entry_vector_type r = t.topk(a, b, k); if (r != want) OK(false, how << ": answer"); });
            // an enumerator whose step failed can be started anew
            T::enumerator e;
            bool restarted = true;
            T::entry_vector_type got;
            got.reserve(n);
            for (int64_t j = 0; restarted; ++j) {
                g_sticky = kind == ALLOC_ALL; g_left = j; g_hit = false; g_alloc = true;
                restarted = false;
                try { t.get_topk_enumerator(a, b, e); while (e.next()) {} } catch (std::bad_alloc const&) { restarted = true; }
                g_left = -1; g_alloc = false;
                got.clear();
                t.get_topk_enumerator(a, b, e);
                while (got.size() < k && e.next()) got.push_back(e.value());
                if (got != want) OK(false, how << ": entries of an enumerator started anew after allocation " << j << " failed");
            }
        }
    }
}
// builders: whatever the step that failed, the builder can be destroyed, or replaced and used
static void builders(std::vector<size_t> const& s)
{
    std::ostringstream os; os << "builder after"; for (size_t o : s) os << " " << o;
    std::string how = os.str();
    bit_vector_builder other; other.one_extend(77);
    for (Kind kind : both)
        every(kind, how, [&] {
            bit_vector_builder b;
            auto step = [&](size_t o) {
                switch (o) {
                case 0: for (int i = 0; i < 70; ++i) b.push_back(i % 3); break;
                case 1: b.append_bits(0x123456789ull, 61); break;
                case 2: b.zero_extend(300); break;
                case 3: b.one_extend(300); break;
                case 4: b.append(other); break;
                case 5: b.reserve(b.size() + 1000); break;
                case 6: b.reverse(); break;
                case 7: { bit_vector_builder n(100, true); n.swap(b); break; }
                case 8: b.append_bits(1, 3); break;
                case 9: { bit_vector_builder n; n.append(b); bit_vector v(&n); rs_bit_vector r(&b, true, true); bit_vector_builder().swap(b); } break;
                }
            };
            try { for (size_t o : s) step(o); }
            catch (std::bad_alloc const&) {
                g_left = -1;
                bit_vector_builder n; n.swap(b);
                b.append_bits(5, 3); b.push_back(1);
                bit_vector v(&b);
                if (!(v.size() == 4 && v.get_bits(0, 4) == 13)) OK(false, how << ": a replaced builder after a failure");
                throw;
            }
        });
}
static void sizes(std::vector<size_t>& v) { for (size_t n : {0, 1, 2, 5, 33, 64, 130, 1025}) v.push_back(n); if (mc::thorough) for (size_t n : {3, 4, 63, 65, 129, 513, 2049, 5000}) v.push_back(n); }

void explore()
{
    if (mc::section("every structure, every way to build it")) {
        auto cs = contents(mc::thorough ? 4 : 3);
        Building b{cs}; zoo::each(b);
    }
    std::vector<size_t> ns; sizes(ns);
    if (mc::section("ranges and vectors"))
        for (size_t n : ns) for (uint64_t x : {0, 1, 9, 200}) {
            if (!mc::mine()) continue;
            Vals v(n, x); for (size_t i = 0; i < n; ++i) if (i % 3 == 1) v[i] = i % 100;
            MC_DESC(n << " values " << x); mc::state(mc::mix(n, x));
            if (n > 300 && x != 9) continue;
            list_from<elias_fano_list>("elias_fano_list", v, true);
            list_from<elias_fano_compressed_list>("elias_fano_compressed_list", v, true);
            list_from<gamma_vector>("gamma_vector", v, true);
            list_from<gamma_bit_vector>("gamma_bit_vector", v, true);
            list_from<cartesian_tree>("cartesian_tree", v, true);
            list_from<topk_vector<mapper::mappable_vector<uint64_t>>>("topk_vector", v, true);
            list_from<topk_vector<elias_fano_compressed_list>>("topk_vector of compressed lists", v, true);
            { Vals w(v); for (uint64_t& y : w) y %= 16; list_from<nibble_vector>("nibble_vector", w, true); }
            for (Kind k : {ALLOC, ALLOC_ALL, INPUT}) every(k, "cartesian_tree with a comparator", [&] { cartesian_tree t(v, Less()); if (t.size() != n) OK(false, "size"); });
            { std::vector<uint8_t> w(v.begin(), v.end()); for (Kind k : {ALLOC, ALLOC_ALL, INPUT}) { every(k, "bit_vector from a range", [&] { bit_vector t(reading(w)); }); every(k, "rs_bit_vector from a range", [&] { rs_bit_vector t(reading(w), true, true); }); } }
            vectors<uint64_t>("uint64_t", v); vectors<uint8_t>("uint8_t", v); vectors<uint32_t>("uint32_t", v);
        }
    if (mc::section("top-k queries"))
        for (size_t n : {1, 2, 3, 10, 40}) for (int s = 0; s < 4; ++s) {
            if (!mc::mine()) continue;
            Vals v(n); for (size_t i = 0; i < n; ++i) v[i] = s == 0 ? i : s == 1 ? n - i : s == 2 ? 4 : i * 7 % 5;
            MC_DESC(n << " values, shape " << s); mc::state(mc::mix(n, uint64_t(s)));
            queries(v);
        }
    if (mc::section("builder steps"))
        ref::sequences(10, mc::thorough ? 4 : 3, [&](std::vector<size_t> const& s) { if (!mc::mine()) return; MC_DESC("builder steps"); mc::state(mc::hash_seq(s)); builders(s); });
}
MC_MAIN
