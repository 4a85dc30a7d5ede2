// C18: two objects of every type under histories of construction, swapping, mapping over, disposal
#include "zoobox.hpp"
#include <boost/range/iterator_range.hpp>
using namespace box;

// live allocations (ASan, which also knows which delete belongs to which new, keeps its own operators)
static int64_t g_live = 0;
#if !defined(__SANITIZE_ADDRESS__)
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++g_live; return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) --g_live; free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
#endif

struct Histories {
    size_t depth; size_t c0, c1;
    template <class Z> void operator()(size_t zi)
    {
        typedef typename Z::type T;
        static const char* names[] = {"build A", "build B", "A.swap(B)", "B.swap(A)", "A.swap(A)", "dispose A", "dispose B", "map image over A", "map image over B",
                                      "recreate A default", "recreate B default", "recreate A built", "recreate B built"};
        static const int NOPS = 13;
        Content cs[3] = {zoo::content(c0), zoo::content(c1), zoo::content(0)};
        Dump dumps[4];
        std::string img;
        for (int i = 0; i < 3; ++i) { Obj<Z> o(cs[i]); dumps[i] = zoo::observe<Z>(*o); if (i == 0) img = zoo::frozen(*o, path("i")); }
        { Obj<Z> o; dumps[3] = zoo::observe<Z>(*o); }
        Buffer buf(img, 3);
        ref::sequences(NOPS, depth, [&](std::vector<size_t> const& s) {
            if (!mc::mine()) return;
            std::ostringstream how; how << Z::name() << ":";
            for (size_t o : s) how << " " << names[o] << ";";
            if (mc::want_desc) mc::desc(how.str());
            int a = 3, b = 2;
            int64_t base = g_live;
            {
                std::unique_ptr<Obj<Z>> A(new Obj<Z>()), B(new Obj<Z>(cs[2]));
                for (size_t o : s) switch (o) {
                    case 0: { Obj<Z> n(cs[0]); (**A).swap(*n); a = 0; break; }
                    case 1: { Obj<Z> n(cs[1]); (**B).swap(*n); b = 1; break; }
                    case 2: (**A).swap(**B); std::swap(a, b); break;
                    case 3: (**B).swap(**A); std::swap(a, b); break;
                    case 4: (**A).swap(**A); break;
                    case 5: { Obj<Z> n; (*n).swap(**A); a = 3; break; }
                    case 6: { T n; n.swap(**B); b = 3; break; }
                    case 7: mapper::map(**A, buf.p); a = 0; break;
                    case 8: mapper::map(**B, buf.p, mapper::map_flags::warmup); b = 0; break;
                    case 9: A.reset(new Obj<Z>()); a = 3; break;
                    case 10: B.reset(); B.reset(new Obj<Z>()); b = 3; break;
                    case 11: A.reset(new Obj<Z>(cs[1], int(s.size() % Z::npaths()))); a = 1; break;
                    case 12: B.reset(); B.reset(new Obj<Z>(cs[0], int((s.size() + 1) % Z::npaths()))); b = 0; break;
                }
                same(zoo::observe<Z>(**A), dumps[a], how.str() + " A");
                same(zoo::observe<Z>(**B), dumps[b], how.str() + " B");
            }
            mc::state(mc::mix(mc::mix(zi, uint64_t(a * 4 + b)), mc::hash_seq(s)));
            OK(buf.intact(), how.str() << ": mapped bytes changed");
            { std::string t; how.str().swap(t); }
            EQ(g_live, base + 0, "allocations left over");
        }, 1);
    }
};

// every ordered pair of contents through one script
struct Pairs {
    template <class Z> void operator()(size_t zi)
    {
        size_t N = zoo::NCONTENT + 1;      // the last one: default-constructed
        for (size_t x = 0; x < N; ++x) for (size_t y = 0; y < N; ++y) {
            if (!mc::mine()) continue;
            std::ostringstream how; how << Z::name() << " contents " << x << " and " << y;
            if (mc::want_desc) mc::desc(how.str());
            mc::state(mc::mix(mc::mix(zi, x), y + 1000));
            auto make = [&](size_t c) { return c + 1 == N ? new Obj<Z>() : new Obj<Z>(zoo::content(c)); };
            int64_t base = g_live;
            {
                std::unique_ptr<Obj<Z>> A(make(x)), B(make(y));
                Dump da = zoo::observe<Z>(**A), db = zoo::observe<Z>(**B);
                (**A).swap(**B);
                same(zoo::observe<Z>(**A), db, how.str() + ": A after swap"); same(zoo::observe<Z>(**B), da, how.str() + ": B after swap");
                std::string img = zoo::frozen(**A, path("p"));
                (**B).swap(**A);
                same(zoo::observe<Z>(**A), da, how.str() + ": A after swapping back"); same(zoo::observe<Z>(**B), db, how.str() + ": B after swapping back");
                Buffer buf(img, 1);
                mapper::map(**A, buf.p);
                same(zoo::observe<Z>(**A), db, how.str() + ": A mapped over"); same(zoo::observe<Z>(**B), db, how.str() + ": B untouched");
                B.reset(make(x));
                (**A).swap(**B);
                same(zoo::observe<Z>(**A), da, how.str() + ": built swapped for mapped"); same(zoo::observe<Z>(**B), db, how.str() + ": mapped swapped for built");
                A.reset();
                same(zoo::observe<Z>(**B), db, how.str() + ": survivor");
                mapper::map(**B, buf.p);
                same(zoo::observe<Z>(**B), db, how.str() + ": mapped over mapped");
                B.reset();
                OK(buf.intact(), how.str() << ": mapped bytes changed");
            }
            EQ(g_live, base, how.str().c_str() << ": allocations left over");
        }
    }
};

// a default-constructed structure shows an empty content
template <class Z> struct is_user { static const bool v = false; };
template <> struct is_user<zoo::zuser> { static const bool v = true; };
struct Empty {
    template <class Z> void operator()(size_t)
    {
        if (is_user<Z>::v) return;
        if (!mc::mine()) return;
        MC_DESC(Z::name());
        Obj<Z> d, e(zoo::content(0)), f(zoo::content(8));
        // the parentheses behind a range-minimum tree are not part of its content
        auto look = [](typename Z::type const& t) { Dump r = zoo::observe<Z>(t); if (std::is_same<Z, zoo::ztree>::value) r.resize(1); return r; };
        Dump want = look(*e);
        same(look(*d), want, std::string("default-constructed ") + Z::name());
        (*d).swap(*f);
        same(look(*f), want, std::string("emptied by swap ") + Z::name());
        std::string img = zoo::frozen(*f, path("e"));
        Buffer b(img, 0);
        Obj<Z> g(zoo::content(6));
        mapper::map(*g, b.p);
        same(look(*g), want, std::string("image of an empty one mapped over ") + Z::name());
    }
};

// the vector itself
template <class E> static void vectors(size_t depth)
{
    typedef mapper::mappable_vector<E> V;
    static const char* names[] = {"A.assign(3)", "A.assign(none)", "A.steal(5)", "A.steal(none)", "A.clear", "A.swap(B)", "B.assign(A)", "map over A", "B.steal(2)", "A.swap(A)", "B.clear", "recreate B from a list", "map over B"};
    auto vec = [](size_t n, uint64_t k) { std::vector<E> v; for (size_t i = 0; i < n; ++i) v.push_back(E(i * k + 1)); return v; };
    std::vector<E> img_v = vec(7, 9);
    std::string img;
    { V v(img_v); img = zoo::frozen(v, path("v")); }
    Buffer buf(img, 5);
    ref::sequences(13, depth, [&](std::vector<size_t> const& s) {
        if (!mc::mine()) return;
        std::ostringstream how; how << "vector of " << sizeof(E) << "-byte elements:";
        for (size_t o : s) how << " " << names[o] << ";";
        if (mc::want_desc) mc::desc(how.str());
        int64_t base = g_live;
        {
            std::unique_ptr<V> A(new V()), B(new V());
            std::vector<E> a, b, src;
            for (size_t o : s) {
                switch (o) {
                case 0: a = vec(3, 5); A->assign(a); break;
                case 1: a.clear(); A->assign(a); break;
                case 2: a = vec(5, 11); src = a; A->steal(src); EQ(src.size(), size_t(0), how.str() << ": source after steal"); src.assign(9, E(77)); break;
                case 3: a.clear(); src.clear(); A->steal(src); EQ(src.size(), size_t(0), how.str() << ": source after steal"); break;
                case 4: a.clear(); A->clear(); break;
                case 5: A->swap(*B); a.swap(b); break;
                case 6: b = a; B->assign(boost::make_iterator_range(A->begin(), A->end())); break;
                case 7: a = img_v; mapper::map(*A, buf.p); break;
                case 8: b = vec(2, 100); src = b; B->steal(src); EQ(src.size(), size_t(0), how.str() << ": source after steal"); src.push_back(E(1)); break;
                case 9: A->swap(*A); break;
                case 10: b.clear(); B->clear(); break;
                case 11: { b = vec(4, 3); std::list<E> l(b.begin(), b.end()); B.reset(new V(l)); break; }
                case 12: b = img_v; mapper::map(*B, buf.p, mapper::map_flags::warmup); break;
                }
            }
            for (int q = 0; q < 2; ++q) {
                V const& v = q ? *B : *A; std::vector<E> const& r = q ? b : a;
                EQ(size_t(v.size()), r.size(), how.str() << ": size of " << "AB"[q]);
                EQ(size_t(v.end() - v.begin()), r.size(), how.str() << ": range of " << "AB"[q]);
                for (size_t i = 0; i < r.size(); ++i) { EQ(v[i], r[i], how.str() << ": " << "AB"[q] << "[" << i << "]"); EQ(v.begin()[i], r[i], how.str() << ": begin"); EQ(v.data()[i], r[i], how.str() << ": data"); }
            }
            mc::state(mc::hash_seq(b, mc::hash_seq(a, sizeof(E))));
        }
        EQ(g_live, base, how.str().c_str() << ": allocations left over");
        OK(buf.intact(), how.str() << ": mapped bytes changed");
    });
}

void explore()
{
    if (mc::section("every ordered pair of contents")) { Pairs p; zoo::each(p); }
    if (mc::section("empty")) { Empty e; zoo::each(e); }
    if (mc::section("vector histories")) { vectors<uint64_t>(mc::thorough ? 6 : 4); vectors<uint8_t>(mc::thorough ? 5 : 4); vectors<int16_t>(mc::thorough ? 5 : 4); }
    if (mc::section("histories of two objects")) { Histories h{size_t(mc::thorough ? 4 : 3), 3, 6}; zoo::each(h); }
    if (mc::section("histories of two larger objects")) { Histories h{size_t(mc::thorough ? 3 : 2), 7, 11}; zoo::each(h); }
}
MC_MAIN
