// C23: queries are pure.  (a) every history of up to three queries on two structures of a type, contents exchanged
// in between, gives each query the answer it has alone; (b) every interleaving of two queries: from the memory each
// touches it is decided whether they conflict at all (if not, all interleavings are equivalent to one); if they do,
// every schedule with up to two pre-emptions at the conflicting accesses is run.
#include "zoobox.hpp"
#include "sched.hpp"
#include <map>
#include <sys/wait.h>
using namespace box;

template <class T> struct Q { std::string name; std::function<uint64_t(T const&)> f; };
#define QUERY(label, expr) m.push_back(Q<T>{label, [=](T const& t) -> uint64_t { (void)t; return uint64_t(expr); }})

// a little of everything, on positions shared by both structures: near the start, in the middle, far off
template <class T> static void bit_queries(std::vector<Q<T>>& m, std::function<bit_vector const&(T const&)> bv, Bits const& b)
{
    auto has = [&](size_t from, size_t to, int v) { for (size_t i = from; i < to; ++i) if (b[i] == v) return true; return false; };
    for (size_t p : {size_t(3), b.size() / 2, b.size() - 2}) {
        std::string s = "(" + std::to_string(p) + ")";
        QUERY("[]" + s, bv(t)[p]);
        QUERY("get_word" + s, bv(t).get_word(p));
        if (has(0, p + 1, 1)) QUERY("predecessor1" + s, bv(t).predecessor1(p));
        if (has(p, b.size(), 1)) QUERY("successor1" + s, bv(t).successor1(p));
        if (has(0, p + 1, 0)) QUERY("predecessor0" + s, bv(t).predecessor0(p));
        if (has(p, b.size(), 0)) QUERY("successor0" + s, bv(t).successor0(p));
    }
    QUERY("get_bits(1,17)", bv(t).get_bits(1, 17));
    m.push_back(Q<T>{"enumerator", [=](T const& t) { bit_vector::enumerator e(bv(t), 5); uint64_t h = 0; for (int i = 0; i < 4; ++i) { h = zoo::fold(h, e.next()); h = zoo::fold(h, e.take(13)); } return h; }});
    m.push_back(Q<T>{"unary_enumerator", [=](T const& t) { bit_vector::unary_enumerator e(bv(t), 2); uint64_t h = 0; for (int i = 0; i < 3; ++i) h = zoo::fold(h, e.next()); e.skip(1); return zoo::fold(h, e.next()); }});
}
template <class T> static void rs_queries(std::vector<Q<T>>& m, size_t size, size_t ones)
{
    for (size_t p : {size_t(3), size / 2, size}) { std::string s = "(" + std::to_string(p) + ")"; QUERY("rank" + s, t.rank(p)); QUERY("rank0" + s, t.rank0(p)); }
    for (size_t k : {size_t(0), ones / 2, ones - 1}) QUERY("select(" + std::to_string(k) + ")", t.select(k));
    for (size_t k : {size_t(0), (size - ones) / 2, size - ones - 1}) QUERY("select0(" + std::to_string(k) + ")", t.select0(k));
}
// what is common to the two contents a structure may show: sizes of the smaller, kinds of bits where they agree
struct Common { Bits bits; Bits parens; size_t ones; Vals ints; Content a, b; };

template <class Z> struct Menu;
template <class E> struct Menu<zoo::zvec<E>> { static void get(std::vector<Q<typename zoo::zvec<E>::type>>& m, Common const& c) { typedef typename zoo::zvec<E>::type T; QUERY("size", t.size()); for (size_t i : {size_t(0), c.ints.size() / 2, c.ints.size() - 1}) QUERY("[" + std::to_string(i) + "]", t[i]); QUERY("end-begin", t.end() - t.begin()); } };
template <> struct Menu<zoo::zbits> { static void get(std::vector<Q<bit_vector>>& m, Common const& c) { bit_queries<bit_vector>(m, [](bit_vector const& t) -> bit_vector const& { return t; }, c.bits); } };
template <bool A, bool B> struct Menu<zoo::zrs<A, B>> { static void get(std::vector<Q<rs_bit_vector>>& m, Common const& c) { rs_queries<rs_bit_vector>(m, c.bits.size(), c.ones); typedef rs_bit_vector T; QUERY("successor1(9)", t.successor1(9)); QUERY("num_ones", t.num_ones()); } };
template <bool A, bool B> struct Menu<zoo::zbp<A, B>> {
    static void get(std::vector<Q<bp_vector>>& m, Common const& c)
    {
        typedef bp_vector T;
        Content ca = c.a, cb = c.b;
        size_t n = c.parens.size();
        auto both = [&](size_t p, int v) { return ca.parens[p] == v && cb.parens[p] == v; };
        int got = 0;
        for (size_t p = 1; p < n && got < 5; p += 1 + n / 11) { while (p < n && !both(p, 1)) ++p; if (p < n) { QUERY("find_close(" + std::to_string(p) + ")", t.find_close(p)); QUERY("enclose(" + std::to_string(p) + ")", t.enclose(p)); ++got; } }
        got = 0;
        for (size_t p = 2; p < n && got < 5; p += 1 + n / 11) { while (p < n && !both(p, 0)) ++p; if (p < n) { QUERY("find_open(" + std::to_string(p) + ")", t.find_open(p)); ++got; } }
        QUERY("find_close(0)", t.find_close(0));
        for (size_t p : {size_t(1), n / 2, n - 1}) QUERY("excess(" + std::to_string(p) + ")", t.excess(p));
        for (size_t a : {size_t(0), n / 3}) for (size_t b : {n / 3 + 2, n - 1}) { QUERY("excess_rmq(" + std::to_string(a) + "," + std::to_string(b) + ")", t.excess_rmq(a, b)); QUERY("min excess(" + std::to_string(a) + "," + std::to_string(b) + ")", ([&] { bp_vector::excess_t e; t.excess_rmq(a, b, e); return e; })()); }
        QUERY("rank(7)", t.rank(7)); QUERY("select0(1)", t.select0(1)); QUERY("select(1)", t.select(1));
    }
};
template <class D, bool ONE> struct Menu<zoo::zdarray<D, ONE>> {
    static void get(std::vector<Q<zoo::with_bits<D>>>& m, Common const& c)
    {
        typedef zoo::with_bits<D> T;
        size_t n = ONE ? c.ones : c.bits.size() - c.ones;
        for (size_t k : {size_t(0), size_t(1), n / 3, n / 2, n - 2, n - 1}) QUERY("select(" + std::to_string(k) + ")", t.dir.select(t.bv, k));
        QUERY("num_positions", t.dir.num_positions());
    }
};
template <> struct Menu<zoo::zdarray64> { static void get(std::vector<Q<darray64>>& m, Common const& c) { typedef darray64 T; size_t n = c.ints.size(); for (size_t k : {size_t(0), size_t(1), n / 3, n / 2, n - 2, n - 1}) QUERY("select(" + std::to_string(k) + ")", t.select(k)); } };
template <bool R> struct Menu<zoo::zef<R>> {
    static void get(std::vector<Q<elias_fano>>& m, Common const& c)
    {
        typedef elias_fano T;
        size_t n = c.ones, N = c.bits.size();
        for (size_t k : {size_t(0), n / 2, n - 2}) { std::string s = "(" + std::to_string(k) + ")"; QUERY("select" + s, t.select(k)); QUERY("delta" + s, t.delta(k)); QUERY("select_range" + s, zoo::fold(t.select_range(k).first, t.select_range(k).second)); }
        m.push_back(Q<T>{"select_enumerator", [=](T const& t) { elias_fano::select_enumerator e(t, 1); uint64_t h = 0; for (int i = 0; i < 4; ++i) h = zoo::fold(h, e.next()); return h; }});
        if (!R) return;
        auto last = [](Bits const& b) { size_t r = 0; for (size_t i = 0; i < b.size(); ++i) if (b[i]) r = i; return r; };
        auto first = [](Bits const& b) { size_t i = 0; while (!b[i]) ++i; return i; };
        size_t la = std::min(last(c.a.bits), last(c.b.bits)), fi = std::max(first(c.a.bits), first(c.b.bits));
        for (size_t p : {size_t(1), N / 2, N - 1}) {
            std::string s = "(" + std::to_string(p) + ")";
            QUERY("[]" + s, t[p]); QUERY("rank" + s, t.rank(p));
            if (p <= la) QUERY("successor1" + s, t.successor1(p));
            if (p >= fi) QUERY("predecessor1" + s, t.predecessor1(p));
        }
    }
};
template <class L> static void enum_queries(std::vector<Q<L>>& m, size_t n, int)
{
    for (size_t k : {size_t(0), n / 2}) m.push_back(Q<L>{"enumerate from " + std::to_string(k), [=](L const& t) { forward_enumerator<L> e(t, k); uint64_t h = 0; for (size_t i = k; i < k + 4 && i < n; ++i) h = zoo::fold(h, e.next()); return h; }});
}
template <class L> struct Menu<zoo::zlist<L>> {
    static void get(std::vector<Q<L>>& m, Common const& c)
    {
        typedef L T;
        size_t n = c.ints.size();
        for (size_t k : {size_t(0), size_t(1), n / 3, n / 2, n - 2, n - 1}) QUERY("[" + std::to_string(k) + "]", t[k]);
        QUERY("size", t.size());
        enum_queries<L>(m, n, 0);
    }
};
template <> struct Menu<zoo::znibbles> { static void get(std::vector<Q<nibble_vector>>& m, Common const& c) { typedef nibble_vector T; size_t n = c.ints.size(); for (size_t k : {size_t(0), size_t(1), n / 2, n - 1}) QUERY("[" + std::to_string(k) + "]", t[k]); } };
template <class T> static void range_queries(size_t n, std::function<void(size_t, size_t)> f) { for (size_t a : {size_t(0), size_t(1), n / 2}) for (size_t b : {n / 2, n - 2, n - 1}) f(a, b); }
template <> struct Menu<zoo::ztree> { static void get(std::vector<Q<cartesian_tree>>& m, Common const& c) { typedef cartesian_tree T; range_queries<T>(c.ints.size(), [&](size_t a, size_t b) { QUERY("rmq(" + std::to_string(a) + "," + std::to_string(b) + ")", t.rmq(a, b)); }); } };
template <class V> struct Menu<zoo::ztopk<V>> {
    static void get(std::vector<Q<topk_vector<V>>>& m, Common const& c)
    {
        typedef topk_vector<V> T;
        range_queries<T>(c.ints.size(), [&](size_t a, size_t b) {
            m.push_back(Q<T>{"topk(" + std::to_string(a) + "," + std::to_string(b) + ",4)", [=](T const& t) { uint64_t h = 0; for (auto const& e : t.topk(a, b, 4)) h = zoo::fold(zoo::fold(h, uint64_t(boost::get<0>(e))), boost::get<1>(e)); return h; }});
        });
        QUERY("[1]", t[1]);
        m.push_back(Q<T>{"enumerator", [](T const& t) { typename T::enumerator e = t.get_topk_enumerator(0, 4); uint64_t h = 0; while (e.next()) h = zoo::fold(h, boost::get<1>(e.value())); return h; }});
    }
};
template <> struct Menu<zoo::zuser> { static void get(std::vector<Q<zoo::user>>& m, Common const& c) { typedef zoo::user T; size_t n = c.ints.size(); for (size_t k : {size_t(0), n / 2, n - 1}) { QUERY("one.g[" + std::to_string(k) + "]", t.one.g[k]); QUERY("ef.select(" + std::to_string(k) + ")", t.ef.select(k)); QUERY("two.v", t.two.v[k]); } QUERY("ef.rank(4)", t.ef.rank(4)); } };

static Common common(Content const& a, Content const& b)
{
    Common c; c.a = a; c.b = b;
    auto ones = [](Bits const& x) { size_t n = 0; for (uint8_t v : x) n += v; return n; };
    c.ints = a.ints.size() < b.ints.size() ? a.ints : b.ints;
    // a bit is shown as present only where both contents agree (2: they differ)
    size_t n = std::min(a.bits.size(), b.bits.size());
    for (size_t i = 0; i < n; ++i) c.bits.push_back(a.bits[i] == b.bits[i] ? a.bits[i] : 2);
    c.ones = std::min(ones(a.bits), ones(b.bits));
    size_t z = std::min(a.bits.size() - ones(a.bits), b.bits.size() - ones(b.bits));
    while (c.bits.size() > c.ones + z) c.bits.pop_back();
    c.parens = a.parens.size() < b.parens.size() ? a.parens : b.parens;
    return c;
}

// f() in a child process of its own; its words back through shared memory
static uint64_t* g_box = 0;
static const size_t BOX = size_t(1) << 21;
template <class F> static bool alone(F f)
{
    if (!g_box) g_box = (uint64_t*)mmap(0, BOX * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    fflush(0);
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(2); }
    if (!p) { struct itimerval off = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &off, 0); alarm(60); f(g_box); _exit(0); }
    int st = 0;
    while (waitpid(p, &st, 0) < 0) {}
    return st == 0;
}

template <class Z> struct Cast {
    typedef typename Z::type T;
    std::vector<Q<T>> m;
    Obj<Z> s[2];
    Content c[2];
    std::vector<uint64_t> want[2];      // answer of query i on content k, asked alone
    bool ok;
    Cast(size_t c0, size_t c1) : s{Obj<Z>(zoo::content(c0)), Obj<Z>(zoo::content(c1))}, ok(true)
    {
        c[0] = zoo::content(c0); c[1] = zoo::content(c1);
        Menu<Z>::get(m, common(c[0], c[1]));
        for (int k = 0; k < 2; ++k) for (size_t i = 0; i < m.size(); ++i) {
            bool fine = alone([&](uint64_t* o) { o[0] = m[i].f(*s[k].t); });
            if (!fine) { fprintf(stderr, "%s: query %s alone failed\n", Z::name(), m[i].name.c_str()); ok = false; }
            want[k].push_back(g_box[0]);
        }
    }
};

struct Histories {
    size_t depth, c0, c1;
    template <class Z> void operator()(size_t zi)
    {
        // nothing to prepare if this worker has no case of this type
        Cast<Z> k(c0, c1);
        size_t n = k.m.size();
        bool checked = false;
        ref::sequences(2 * n + 1, depth, [&](std::vector<size_t> const& s) {
            if (s.size() == 3 && s[1] != 2 * n && n > 12 && !mc::thorough && (s[0] % n + s[2] % n) % 5) return;   // quick: triples thinned for the largest menus
            if (!mc::mine()) return;
            if (!checked) { OK(k.ok, Z::name() << ": a query crashed when asked alone"); checked = true; }
            auto show = [&] { std::ostringstream os; os << Z::name() << ":"; for (size_t o : s) if (o == 2 * n) os << " exchange contents;"; else os << " " << "AB"[o / n] << "." << k.m[o % n].name << ";"; return os.str(); };
            if (mc::want_desc) mc::desc(show());
            mc::state(mc::hash_seq(s, zi * 100 + c0));
            int at[2] = {0, 1};
            for (size_t o : s) {
                if (o == 2 * n) { (*k.s[0]).swap(*k.s[1]); std::swap(at[0], at[1]); continue; }
                size_t w = o / n, q = o % n;
                uint64_t got = k.m[q].f(*k.s[w].t);
                if (got != k.want[at[w]][q]) EQ(got, k.want[at[w]][q], show() << " answer of " << k.m[q].name);
                ++mc::checks;
            }
            if (at[0]) (*k.s[0]).swap(*k.s[1]);
        });
    }
};

// ---- schedules
using sched::Footprint; using sched::Access; using sched::Run; using sched::Op;

static bool overlap(Footprint const& w, Footprint const& x, Footprint& out)    // writes of w against all of x
{
    bool any = false;
    for (Access const& a : w) if (a.write) for (Access const& b : x) if (b.lo < a.hi && a.lo < b.hi) { any = true; out.push_back(Access{std::max(a.lo, b.lo), std::min(a.hi, b.hi), true}); }
    return any;
}
static void tidy(Footprint& f)
{
    std::sort(f.begin(), f.end());
    f.erase(std::unique(f.begin(), f.end(), [](Access const& a, Access const& b) { return a.lo == b.lo && a.hi == b.hi; }), f.end());
}
static void pack(Footprint const& f, uint64_t* o) { size_t n = std::min(f.size(), (BOX - 8) / 3); o[0] = n; for (size_t i = 0; i < n; ++i) { o[1 + 3 * i] = f[i].lo; o[2 + 3 * i] = f[i].hi; o[3 + 3 * i] = f[i].write; } }
static void unpack(uint64_t* o, Footprint& f) { for (size_t i = 0; i < o[0]; ++i) f.push_back(Access{o[1 + 3 * i], o[2 + 3 * i], o[3 + 3 * i] != 0}); }

static uint64_t g_schedules = 0;

struct Schedules {
    size_t c0, c1;
    template <class Z> void operator()(size_t zi)
    {
        typedef typename Z::type T;
        if (!mc::mine()) return;        // one case: all pairs of queries on a type
        Cast<Z> k(c0, c1);
        size_t n = k.m.size();
        auto op = [&](size_t o) -> Op { T const* t = k.s[o / n].t; auto f = k.m[o % n].f; return [t, f] { return f(*t); }; };
        auto name = [&](size_t o) { return std::string(1, "AB"[o / n]) + "." + k.m[o % n].name; };
        // the memory each query touches, from a fresh state and after all queries were made
        std::vector<Footprint> fp(2 * n);
        for (size_t o = 0; o < 2 * n; ++o) for (int warm = 0; warm < 2; ++warm) {
            bool fine = alone([&](uint64_t* out) {
                if (warm) for (size_t q = 0; q < 2 * n; ++q) k.m[q % n].f(*k.s[q / n].t);
                Run r; r.threads = {{op(o)}}; r.first = 0;
                sched::execute(r);
                pack(r.touched[0], out);
            });
            OK(fine, Z::name() << ": " << name(o) << " in a thread of its own");
            unpack(g_box, fp[o]);
            tidy_all(fp[o]);
        }
        // Two queries none of which writes what the other touches: no access of one can affect the other, one schedule
        // stands for all.  The others are explored level by level, every pair at a level before any at the next one.
        std::vector<Pair> hot;
        for (size_t a = 0; a < 2 * n; ++a) for (size_t b = a; b < 2 * n; ++b) {
            if (a == 0 && b == 1) MC_DESC(Z::name() << ": " << name(a) << " with " << name(b) << " and all other pairs");
            mc::slot->cases++;
            mc::state(mc::mix(mc::mix(zi, a), b));
            Footprint pts;
            overlap(fp[a], fp[b], pts); overlap(fp[b], fp[a], pts);
            mc::checks += fp[a].size() + fp[b].size();
            tidy(pts);
            run_one(k, {{a}, {b}}, pts, 0, {}, name, op);
            if (!pts.empty()) hot.push_back(Pair{a, b, pts});
        }
        struct { uint64_t cap; int bound; bool two; } levels[] = {{6, 1, false}, {60, 1, false}, {8, 2, false}, {6, 1, true}, {60, 2, false}, {60, 1, true}, {400, 2, false}, {400, 1, true}};
        double end = now() + (mc::thorough ? 3600 : 20);
        for (size_t l = 0; l < (mc::thorough ? 8u : 6u); ++l) for (Pair& p : hot) {
            if (now() > end) { mc::sh->cut = mc::sh->cut + 1; return; }       // reported in the evidence
            std::vector<std::vector<size_t>> ops = {{p.a}, {p.b}};
            if (levels[l].two) ops = {{p.a, p.b}, {p.b, p.a}};
            explore_pair(k, ops, p.pts, levels[l].bound, levels[l].cap, end, name, op);
        }
    }
    struct Pair { size_t a, b; Footprint pts; };
    static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }
    static void tidy_all(Footprint& f) { std::sort(f.begin(), f.end()); f.erase(std::unique(f.begin(), f.end(), [](Access const& a, Access const& b) { return a.lo == b.lo && a.hi == b.hi && a.write == b.write; }), f.end()); }

    // returns the number of points passed; adds newly found conflicts to pts
    template <class K, class N, class O> uint64_t run_one(K& k, std::vector<std::vector<size_t>> const& ops, Footprint& pts, size_t first, std::vector<uint64_t> const& sw, N name, O op)
    {
        size_t n = k.m.size();
        auto show = [&] {
            std::ostringstream os;
            os << "threads";
            for (auto const& l : ops) { os << " ["; for (size_t o : l) os << name(o) << " "; os << "]"; }
            os << ", thread " << first << " first, control passed on at conflicting accesses";
            for (uint64_t s : sw) os << " " << s;
            return os.str();
        };
        bool fine = alone([&](uint64_t* out) {
            Run r; r.first = first; r.switches = sw; r.points = pts;
            for (auto const& l : ops) { std::vector<Op> v; for (size_t o : l) v.push_back(op(o)); r.threads.push_back(v); }
            sched::execute(r);
            size_t at = 2;
            for (auto const& l : r.answers) for (uint64_t x : l) out[at++] = x;
            out[0] = r.npoints;
            Footprint more;
            overlap(r.touched[0], r.touched[1], more); overlap(r.touched[1], r.touched[0], more);
            tidy(more);
            if (more.size() > 5000) more.resize(5000);
            pack(more, out + 100);
        });
        ++g_schedules; ++mc::checks;
        OK(fine, show() << ": crashed or did not end");
        size_t at = 2;
        for (auto const& l : ops) for (size_t o : l) { uint64_t got = g_box[at++]; EQ(got, k.want[o / n][o % n], show() << ": answer of " << name(o)); }
        Footprint more;
        unpack(g_box + 100, more);
        uint64_t np = g_box[0];
        if (!more.empty()) { pts.insert(pts.end(), more.begin(), more.end()); tidy(pts); }
        return np;
    }
    template <class K, class N, class O> void explore_pair(K& k, std::vector<std::vector<size_t>> const& ops, Footprint& pts, int bound, uint64_t cap, double end, N name, O op)
    {
        for (int round = 0; round < 4; ++round) {
            size_t before = pts.size();
            for (size_t first = 0; first < 2; ++first) {
                uint64_t N0 = run_one(k, ops, pts, first, {}, name, op);
                for (uint64_t i = 0; i < std::min(N0, cap); ++i) {
                    uint64_t N1 = run_one(k, ops, pts, first, {i}, name, op);
                    if (bound > 1) for (uint64_t j = i + 1; j < std::min(N1, cap); ++j) {
                        if (now() > end) return;
                        run_one(k, ops, pts, first, {i, j}, name, op);
                    }
                    if (now() > end) return;
                }
            }
            if (pts.size() == before) break;
        }
    }
};

void explore()
{
    if (mc::section("query histories")) { Histories h{3, 3, 6}; h.c0 = 4; h.c1 = 5; zoo::each(h); }
    if (mc::section("query histories, larger structures")) { Histories h{2, 7, 11}; zoo::each(h); }
    if (mc::section("schedules") && sched::instrumented()) { Schedules s{4, 5}; zoo::each(s); }
    if (mc::section("schedules, larger structures") && sched::instrumented()) { Schedules s{7, 11}; zoo::each(s); }
    // matches and minima across superblocks, ranges over thousands of elements
    if (mc::section("query histories, large structures")) { Histories h{mc::thorough ? 2u : 1u, 14, 15}; zoo::each(h); }
    if (mc::section("schedules, large structures") && sched::instrumented()) { Schedules s{14, 15}; zoo::each(s); }
}
MC_MAIN
