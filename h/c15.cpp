// C15: freeze / map round trips of every structure
#include "zoobox.hpp"
using namespace box;

// ---- one structure, one content: every way of writing it, every place to map it from, every target
struct Trips {
    std::vector<Content> const& cs; bool wide;
    template <class Z> void operator()(size_t zi)
    {
        typedef typename Z::type T;
        static const size_t offs[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 63, 64, 4096};
        for (size_t ci = 0; ci < cs.size(); ++ci) for (size_t oi = 0; oi < (wide ? 14u : 2u); ++oi) {
            if (!mc::mine()) continue;
            Content const& c = cs[ci];
            size_t off = offs[wide ? oi : oi * (1 + ci % 9)];
            MC_DESC(Z::name() << " of " << show(c) << " frozen at offset " << off);
            mc::state(mc::mix(mc::mix(zi, ci), off));
            Obj<Z> o(c);
            Dump before = zoo::observe<Z>(*o);
            std::string f = path("a");
            std::ostringstream how; how << Z::name() << " of " << show(c) << " at offset " << off;
            {
                std::ofstream out(f.c_str(), std::ios::binary);
                out << std::string(off, 'p');
                mapper::freeze(*o, out);
                out << "tail";
            }
            same(zoo::observe<Z>(*o), before, how.str() + ": original after freezing");
            std::string img = slurp(f), body = img.substr(off, img.size() - off - 4);
            OK(img.substr(0, off) == std::string(off, 'p') && img.substr(img.size() - 4) == "tail", how.str() << ": bytes around the image");
            if (off == 0) {
                std::string g = path("b");
                mapper::freeze(*o, g.c_str());
                OK(slurp(g) == body, how.str() << ": freezing to a file name gives other bytes");
                { std::ofstream junk(g.c_str(), std::ios::binary); junk << std::string(100000, 'j'); }
                mapper::freeze(*o, g.c_str());
                OK(slurp(g) == body, how.str() << ": freezing over an existing file");
            }
            for (int warm = 0; warm < 2; ++warm) for (int target = 0; target < (wide ? 3 : 2); ++target) for (int src = 0; src < 2; ++src) {
                if (src == 1 && !wide && off) continue;
                std::ostringstream h2; h2 << how.str() << (warm ? " with warm-up" : "") << (src ? " from the file" : " from memory") << " into " << (target == 0 ? "a default object" : target == 1 ? "a populated object" : "a mapped object");
                Buffer buf(body, off % 64);
                Buffer other(body, 0);
                boost::iostreams::mapped_file_source mf;
                std::unique_ptr<Obj<Z>> t;
                if (target == 1) t.reset(new Obj<Z>(zoo::content(5))); else t.reset(new Obj<Z>());
                if (target == 2) mapper::map(**t, other.p);
                uint64_t fl = warm ? uint64_t(mapper::map_flags::warmup) : 0;
                if (src) { mf.open(f); if (off) mapper::map(**t, mf.data() + off, fl); else mapper::map(**t, mf, fl); }
                else mapper::map(**t, buf.p, fl);
                same(zoo::observe<Z>(**t), before, h2.str());
                if (!src) {
                    // frozen again, and mapped again from that
                    std::string g = path("c");
                    mapper::freeze(**t, g.c_str());
                    OK(slurp(g) == body, h2.str() << ": frozen again");
                    same(zoo::observe<Z>(**t), before, h2.str() + ": after being frozen again");
                    OK(buf.intact(), h2.str() << ": the mapped bytes changed");
                    // two objects over the same bytes
                    Obj<Z> t2;
                    mapper::map(*t2, buf.p);
                    t.reset();
                    same(zoo::observe<Z>(*t2), before, h2.str() + ": second mapping of the same bytes");
                }
            }
            same(zoo::observe<Z>(*o), before, how.str() + ": original after being mapped elsewhere");
        }
    }
};

// ---- a default-constructed structure
struct Defaults {
    template <class Z> void operator()(size_t zi)
    {
        if (!mc::mine()) return;
        MC_DESC("default-constructed " << Z::name());
        mc::state(mc::mix(zi, 0xD));
        Obj<Z> o;
        Dump before = zoo::observe<Z>(*o);
        std::string f = path("d");
        mapper::freeze(*o, f.c_str());
        std::string img = slurp(f);
        for (int k = 0; k < 3; ++k) {
            std::unique_ptr<Obj<Z>> t(k == 0 ? new Obj<Z>() : new Obj<Z>(zoo::content(k == 1 ? 4 : 7)));
            Buffer buf(img, size_t(k * 3));
            mapper::map(**t, buf.p, k == 2 ? uint64_t(mapper::map_flags::warmup) : 0);
            same(zoo::observe<Z>(**t), before, std::string("default-constructed ") + Z::name() + " frozen and mapped");
            std::string g = path("e");
            mapper::freeze(**t, g.c_str());
            OK(slurp(g) == img, "default-constructed " << Z::name() << " frozen again");
        }
    }
};

// ---- histories over two objects and two files
struct Histories {
    size_t depth;
    template <class Z> void operator()(size_t zi)
    {
        static const char* names[] = {"build A 3", "build B 6", "freeze A to F", "freeze B to F", "freeze A to G", "map F to A", "map F to B", "map G to A", "swap A B", "map G to B warm"};
        static Content cs[3]; static Dump dumps[4]; static bool init = false;
        if (!init) {
            cs[0] = zoo::content(3); cs[1] = zoo::content(6); cs[2] = zoo::content(0);
            for (int i = 0; i < 3; ++i) { Obj<Z> o(cs[i]); dumps[i] = zoo::observe<Z>(*o); }
            Obj<Z> o; dumps[3] = zoo::observe<Z>(*o);
            init = true;
        }
        ref::sequences(10, depth, [&](std::vector<size_t> const& s) {
            if (!mc::mine()) return;
            std::ostringstream how; how << Z::name() << ":";
            for (size_t o : s) how << " " << names[o] << ";";
            if (mc::want_desc) mc::desc(how.str());
            int a = 3, b = 2, f = -1, g = -1;
            std::vector<std::unique_ptr<Buffer>> bufs;
            Obj<Z> A, B(cs[2]);
            std::string fn[2] = {path("F"), path("G")};
            std::string img[2];
            auto build = [&](Obj<Z>& o, int c) { Obj<Z> n(cs[c]); (*o).swap(*n); };
            auto freeze = [&](Obj<Z>& o, int w, int c) { mapper::freeze(*o, fn[w].c_str()); (w ? g : f) = c; img[w] = slurp(fn[w]); };
            auto map = [&](Obj<Z>& o, int w, int& c, uint64_t fl) {
                int have = w ? g : f;
                if (have < 0) return;
                bufs.emplace_back(new Buffer(img[w], s.size() % 8));
                mapper::map(*o, bufs.back()->p, fl);
                c = have;
            };
            for (size_t o : s) switch (o) {
                case 0: build(A, 0); a = 0; break;
                case 1: build(B, 1); b = 1; break;
                case 2: freeze(A, 0, a); break;
                case 3: freeze(B, 0, b); break;
                case 4: freeze(A, 1, a); break;
                case 5: map(A, 0, a, 0); break;
                case 6: map(B, 0, b, 0); break;
                case 7: map(A, 1, a, 0); break;
                case 8: (*A).swap(*B); std::swap(a, b); break;
                case 9: map(B, 1, b, mapper::map_flags::warmup); break;
            }
            mc::state(mc::mix(mc::mix(zi, a * 4 + b), f * 8 + g));
            same(zoo::observe<Z>(*A), dumps[a], how.str() + " A");
            same(zoo::observe<Z>(*B), dumps[b], how.str() + " B");
            for (auto const& p : bufs) OK(p->intact(), how.str() << ": mapped bytes changed");
        });
    }
};

void explore()
{
    std::vector<Content> std_;
    for (size_t c = 0; c < zoo::NCONTENT; ++c) std_.push_back(zoo::content(c));
    std::vector<Content> more = contents(mc::thorough ? 4 : 3);
    more.erase(more.begin(), more.begin() + zoo::NCONTENT);
    if (mc::section("round trips of the standard contents at every offset")) { Trips t{std_, true}; zoo::each(t); }
    if (mc::section("round trips of many contents")) { Trips t{more, false}; zoo::each(t); }
    if (mc::section("default-constructed structures")) { Defaults d; zoo::each(d); }
    if (mc::section("histories")) { Histories h{size_t(mc::thorough ? 5 : 3)}; zoo::each(h); }
}
MC_MAIN
