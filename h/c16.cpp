// C16: sizes reported by freeze, map, size_of and size_tree_of against the bytes that are really there
#include "zoobox.hpp"
#include <thread>
#include <fcntl.h>
#include <sys/stat.h>
using namespace box;

// What a structure occupies, found by visiting it through its public map()
struct Node { std::string name; uint64_t size; std::vector<Node> kids; };
class Recorder {
public:
    Recorder() : m_size(0), m_cur(0) {}
    template <typename T> typename std::enable_if<!std::is_pod<T>::value, Recorder&>::type operator()(T& val, const char* name)
    {
        uint64_t before = m_size;
        Node n; n.name = name; n.size = 0;
        Node* up = m_cur;
        m_cur = &n;
        val.map(*this);
        n.size = m_size - before;
        m_cur = up;
        if (up) up->kids.push_back(n); else top = n;
        return *this;
    }
    template <typename T> typename std::enable_if<std::is_pod<T>::value, Recorder&>::type operator()(T&, const char*) { m_size += sizeof(T); return *this; }
    template <typename T> Recorder& operator()(mapper::mappable_vector<T>& v, const char* name)
    {
        Node n; n.name = name; n.size = 8 + uint64_t(v.size()) * sizeof(T);
        m_size += n.size;
        if (m_cur) m_cur->kids.push_back(n); else top = n;
        return *this;
    }
    Node top;
    uint64_t m_size;
    Node* m_cur;
};

static size_t tree_is(mapper::size_node_ptr const& t, Node const& n, std::string const& how)
{
    OK(t.get() != 0, how << ": no node");
    EQ(std::string(t->name) == n.name, true, how << ": node name '" << t->name << "' expected '" << n.name << "'");
    EQ(uint64_t(t->size), n.size, how << ": size of '" << n.name << "'");
    EQ(t->children.size(), n.kids.size(), how << ": children of '" << n.name << "'");
    size_t c = 1;
    for (size_t i = 0; i < n.kids.size(); ++i) c += tree_is(t->children[i], n.kids[i], how);
    return c;
}
// the printed tree: one line per node
static void lines_of(Node const& n, size_t depth, std::ostream& os)
{
    os << std::string(depth * 4, ' ') << n.name << ": " << n.size << '\n';
    for (Node const& k : n.kids) lines_of(k, depth + 1, os);
}

template <class T> static std::string sizes(T& t, std::string const& how, size_t prefix, uint64_t flags)
{
    std::string f = path("s");
    size_t w;
    std::streamoff at;
    {
        std::ofstream out(f.c_str(), std::ios::binary);
        out << std::string(prefix, 'x');
        w = mapper::freeze(t, out, flags);
        at = out.tellp();
    }
    std::string img = slurp(f);
    EQ(size_t(at), img.size(), how << ": stream position after freezing");
    EQ(w, img.size() - prefix, how << ": freeze(stream) returned");
    EQ(mapper::freeze(t, f.c_str(), flags), w, how << ": freeze(file) returned");
    EQ(slurp(f).size(), w, how << ": file size");
    EQ(mapper::size_of(t) + 8, w, how << ": size_of + 8");
    uint64_t header = 0;
    memcpy(&header, img.data() + prefix, 8);
    EQ(header, flags, how << ": flags in the header");
    return img.substr(prefix);
}

struct One {
    std::vector<Content> const& cs;
    template <class Z> void operator()(size_t zi)
    {
        typedef typename Z::type T;
        for (size_t ci = 0; ci <= cs.size(); ++ci) {
            if (!mc::mine()) continue;
            std::ostringstream how;
            std::unique_ptr<Obj<Z>> o;
            if (ci == cs.size()) { o.reset(new Obj<Z>()); how << "default " << Z::name(); }
            else { o.reset(new Obj<Z>(cs[ci])); how << Z::name() << " of " << show(cs[ci]); }
            if (mc::want_desc) mc::desc(how.str());
            T& t = **o;
            Recorder r; r(t, "<TOP>");
            mc::state(mc::mix(mc::mix(zi, ci), r.top.size));
            for (size_t pre : {size_t(0), size_t(1), size_t(13)}) for (uint64_t fl : {uint64_t(0), uint64_t(5), ~uint64_t(0)}) {
                std::string img = sizes(t, how.str(), pre, fl);
                EQ(img.size(), r.top.size + 8, how.str() << ": bytes written");
                Buffer b(img, pre);
                for (int warm = 0; warm < 2; ++warm) {
                    Obj<Z> m;
                    EQ(mapper::map(*m, b.p, warm ? uint64_t(mapper::map_flags::warmup) : 0), img.size(), how.str() << ": map returned");
                    if (pre || fl) continue;
                    EQ(mapper::size_of(*m) + 8, img.size(), how.str() << ": size_of the mapped structure");
                    Recorder r2; r2(*m, "mapped");
                    tree_is(mapper::size_tree_of(*m, "mapped"), r2.top, how.str() + " mapped");
                    EQ(sizes(*m, how.str() + " mapped", 0, 0) == img, true, how.str() << ": frozen again");
                    std::string f = path("m");
                    { std::ofstream out(f.c_str(), std::ios::binary); out << img; }
                    boost::iostreams::mapped_file_source mf(f);
                    Obj<Z> m2;
                    EQ(mapper::map(*m2, mf), img.size(), how.str() << ": map of a file returned");
                }
            }
            for (const char* name : {"<TOP>", "a name", ""}) {
                Recorder q; q(t, name);
                mapper::size_node_ptr s = mapper::size_tree_of(t, name);
                tree_is(s, q.top, how.str());
                std::ostringstream want, got;
                lines_of(q.top, 0, want);
                s->dump(got);
                OK(got.str() == want.str(), how.str() << ": printed tree is\n" << got.str() << "expected\n" << want.str());
            }
            tree_is(mapper::size_tree_of(t), r.top, how.str());
        }
    }
};

// ---- several structures in one file
struct Any {
    virtual ~Any() {}
    virtual size_t freeze(std::ofstream&) = 0;
    virtual size_t map_check(const char* p, std::string const& how) = 0;
    virtual size_t size_of() = 0;
    virtual std::string name() = 0;
};
template <class Z> struct AnyOf : Any {
    Obj<Z> o; Dump d; size_t c;
    AnyOf(size_t c) : o(zoo::content(c)), d(zoo::observe<Z>(*o)), c(c) {}
    size_t freeze(std::ofstream& out) { return mapper::freeze(*o, out); }
    size_t map_check(const char* p, std::string const& how) { Obj<Z> m; size_t r = mapper::map(*m, p); same(zoo::observe<Z>(*m), d, how + ": " + name()); return r; }
    size_t size_of() { return mapper::size_of(*o); }
    std::string name() { std::ostringstream os; os << Z::name() << " of content " << c; return os.str(); }
};
struct Collect {
    std::vector<Any*>& v; size_t c;
    template <class Z> void operator()(size_t) { v.push_back(new AnyOf<Z>(c)); }
};

static void together(size_t k)
{
    std::vector<Any*> all;
    if (k == 2) { for (size_t c : {0, 3, 6, 7}) { Collect col{all, c}; zoo::each(col); } }
    else { Collect col{all, 3}; zoo::each(col); }
    ref::sequences(all.size(), k, [&](std::vector<size_t> const& s) {
        if (!mc::mine()) return;
        std::ostringstream how;
        for (size_t i : s) how << all[i]->name() << "; ";
        if (mc::want_desc) mc::desc(how.str());
        std::string f = path("t");
        std::vector<size_t> n;
        { std::ofstream out(f.c_str(), std::ios::binary); for (size_t i : s) n.push_back(all[i]->freeze(out)); }
        Buffer b(slurp(f), 0);
        size_t p = 0;
        for (size_t i = 0; i < s.size(); ++i) {
            OK(p + n[i] <= b.copy.size(), how.str() << ": the file is shorter than the sum of the sizes");
            EQ(n[i], all[s[i]]->size_of() + 8, how.str() << ": size " << i);
            size_t r = all[s[i]]->map_check(b.p + p, how.str());
            EQ(r, n[i], how.str() << ": mapped size of structure " << i);
            p += r;
        }
        EQ(p, b.copy.size(), how.str() << ": end of the last structure");
        mc::state(mc::mix(mc::hash_seq(s), p));
    }, k);
}

// ---- vectors of more than 4 GB: never resident, their pages are the kernel's zero page
template <class E> static void huge(uint64_t elems)
{
    std::ostringstream how; how << "vector of " << elems << " elements of " << sizeof(E) << " bytes";
    uint64_t bytes = elems * sizeof(E) + 16;
    char* p = (char*)mmap(0, bytes + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    memcpy(p + 8, &elems, 8);
    p[16] = 1; p[bytes - 1] = 7;
    mapper::mappable_vector<E> v;
    EQ(mapper::map(v, p), bytes, how.str() << ": map returned");
    EQ(v.size(), elems, how.str() << ": size");
    OK(v[0] == E(1) && v[elems - 1] == E(E(7) << (8 * (sizeof(E) - 1))), how.str() << ": elements");
    EQ(mapper::size_of(v) + 8, bytes, how.str() << ": size_of");
    EQ(uint64_t(mapper::size_tree_of(v)->size) + 8, bytes, how.str() << ": size tree");
    // frozen into a pipe, so that every byte written is counted
    std::string f = path("fifo");
    if (mkfifo(f.c_str(), 0600)) { perror("mkfifo"); _exit(2); }
    uint64_t count = 0, ones = 0; unsigned char first = 0, last = 0;
    std::thread reader([&] {
        int fd = open(f.c_str(), O_RDONLY);
        fcntl(fd, F_SETPIPE_SZ, 1 << 20);
        std::vector<unsigned char> buf(1 << 20);
        ssize_t n;
        while ((n = read(fd, buf.data(), buf.size())) > 0) {
            if (count <= 16 && count + uint64_t(n) > 16) first = buf[size_t(16 - count)];
            last = buf[size_t(n) - 1];
            count += uint64_t(n);
        }
        close(fd);
        (void)ones;
    });
    uint64_t w = mapper::freeze(v, f.c_str());
    reader.join();
    unlink(f.c_str());
    munmap(p, bytes + 4096);
    EQ(w, bytes, how.str() << ": freeze returned");
    EQ(count, bytes, how.str() << ": bytes written");
    EQ(int(first), 1, how.str() << ": first byte"); EQ(int(last), 7, how.str() << ": last byte");
    mc::state(mc::mix(elems, sizeof(E)));
}

void explore()
{
    std::vector<Content> cs = contents(mc::thorough ? 5 : 3);
    if (mc::section("each structure")) { One o{cs}; zoo::each(o); }
    if (mc::section("two structures in one file")) together(2);
    if (mc::section("three structures in one file")) together(3);
    if (mc::section("vectors of gigabytes") && mc::cfg == "popcnt") {
        if (mc::mine()) huge<uint64_t>((uint64_t(1) << 29) + 3);
        if (mc::mine()) huge<uint8_t>((uint64_t(1) << 31) + 5);
        if (mc::mine()) huge<int16_t>((uint64_t(1) << 31) + 1);
        if (mc::mine()) huge<uint8_t>((uint64_t(1) << 32) + 9);
    }
}
MC_MAIN
