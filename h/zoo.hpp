// Every structure of the library behind one interface: build it from a content (by several paths), observe
// everything it answers.  Also compiled against the released sources (released/), hence no harness macros
// and no names outside namespace zoo other than what the library's public interface offers.
#pragma once
#include <cassert>
#include <cstdint>
#include <cstring>
#include <deque>
#include <list>
#include <new>
#include <string>
#include <vector>
#include <fstream>
#include "succinct/util.hpp"
#include "succinct/mapper.hpp"
#include "succinct/bit_vector.hpp"
#include "succinct/rs_bit_vector.hpp"
#include "succinct/bp_vector.hpp"
#include "succinct/darray.hpp"
#include "succinct/darray64.hpp"
#include "succinct/elias_fano.hpp"
#include "succinct/elias_fano_list.hpp"
#include "succinct/elias_fano_compressed_list.hpp"
#include "succinct/gamma_vector.hpp"
#include "succinct/gamma_bit_vector.hpp"
#include "succinct/cartesian_tree.hpp"
#include "succinct/topk_vector.hpp"
#include "succinct/nibble_vector.hpp"
#include "content.hpp"

namespace zoo {
    using namespace succinct;

    inline std::vector<size_t> keys(size_t n, size_t lim)
    {
        std::vector<size_t> k;
        size_t step = n > lim ? n / lim : 1;
        for (size_t i = 0; i < n; i += step) k.push_back(i);
        if (n) k.push_back(n - 1);
        return k;
    }
    inline uint64_t fold(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }

    // ---------------------------------------------------------------- observation
    template <class V> void see_seq(V const& v, size_t n, Dump& d)
    {
        d.push_back(n);
        uint64_t h = 0;
        for (size_t i = 0; i < n; ++i) { uint64_t x = uint64_t(v[i]); if (i < 60) d.push_back(x); h = fold(h, x); }
        d.push_back(h);
    }
    template <class T> void see(mapper::mappable_vector<T> const& v, Dump& d)
    {
        see_seq(v, size_t(v.size()), d);
        d.push_back(uint64_t(v.end() - v.begin()));
        uint64_t h = 0;
        for (typename mapper::mappable_vector<T>::const_iterator i = v.begin(); i != v.end(); ++i) h = fold(h, uint64_t(*i));
        d.push_back(h);
        if (v.size()) d.push_back(v.data() == &v[0]);
    }
    inline Bits see_bits(bit_vector const& v, Dump& d, size_t lim)
    {
        Bits b(v.size());
        for (size_t i = 0; i < b.size(); ++i) b[i] = v[i];
        see_seq(b, b.size(), d);
        size_t ones = 0;
        for (uint8_t x : b) ones += x;
        size_t first1 = b.size(), last1 = 0, first0 = b.size(), last0 = 0;
        for (size_t i = 0; i < b.size(); ++i) { if (b[i]) { if (first1 == b.size()) first1 = i; last1 = i; } else { if (first0 == b.size()) first0 = i; last0 = i; } }
        for (size_t p : keys(b.size(), lim)) {
            d.push_back(v.get_word(p));
            for (size_t l : {size_t(0), size_t(1), size_t(13), size_t(64)}) if (p + l <= b.size()) d.push_back(v.get_bits(p, l));
            if (first1 < b.size() && p >= first1) d.push_back(v.predecessor1(p));
            if (first1 < b.size() && p <= last1) d.push_back(v.successor1(p));
            if (first0 < b.size() && p >= first0) d.push_back(v.predecessor0(p));
            if (first0 < b.size() && p <= last0) d.push_back(v.successor0(p));
        }
        if (b.size()) {
            for (size_t p : {size_t(0), b.size() / 2}) {
                bit_vector::enumerator e(v, p);
                uint64_t h = 0;
                for (size_t i = p; i < b.size(); ++i) h = fold(h, e.next());
                d.push_back(h);
                size_t left = 0;
                for (size_t i = p; i < b.size(); ++i) left += b[i];
                bit_vector::unary_enumerator u(v, p);
                for (size_t i = 0; i < left; ++i) h = fold(h, u.next());
                d.push_back(h);
            }
        }
        d.push_back(ones);
        return b;
    }
    inline void see(bit_vector const& v, Dump& d) { see_bits(v, d, 40); }
    inline Bits see_rs(rs_bit_vector const& v, Dump& d)
    {
        Bits b = see_bits(v, d, 15);
        d.push_back(v.num_ones()); d.push_back(v.num_zeros());
        for (size_t p : keys(b.size() + 1, 40)) { d.push_back(v.rank(p)); d.push_back(v.rank0(p)); }
        uint64_t ones = 0;
        for (uint8_t x : b) ones += x;
        if (ones != v.num_ones()) return b;
        for (size_t k : keys(ones, 40)) d.push_back(v.select(k));
        for (size_t k : keys(b.size() - ones, 40)) d.push_back(v.select0(k));
        return b;
    }
    inline void see(rs_bit_vector const& v, Dump& d) { see_rs(v, d); }
    inline void see(bp_vector const& v, Dump& d)
    {
        Bits b = see_rs(v, d);
        std::vector<size_t> st, par(b.size());
        for (size_t i = 0; i < b.size(); ++i) {
            par[i] = st.empty() ? b.size() : st.back();
            if (b[i]) st.push_back(i);
            else { if (st.empty()) { d.push_back(~uint64_t(0)); return; } st.pop_back(); }
        }
        if (!st.empty()) { d.push_back(~uint64_t(0)); return; }
        std::vector<size_t> k = keys(b.size(), 25);
        for (size_t p : k) {
            d.push_back(uint64_t(int64_t(v.excess(p))));
            if (b[p]) { d.push_back(v.find_close(p)); if (par[p] != b.size()) d.push_back(v.enclose(p)); }
            else d.push_back(v.find_open(p));
        }
        for (size_t i = 0; i < k.size(); i += 3) for (size_t j = i; j < k.size(); j += 2) {
            bp_vector::excess_t e = 77;
            d.push_back(v.excess_rmq(k[i], k[j], e));
            d.push_back(uint64_t(int64_t(e)));
        }
    }

    // ---------------------------------------------------------------- structures
    // destroys what a failed construction leaves behind
    template <class T> struct placed {
        T* t;
        placed(void* m) : t(new (m) T()) {}
        ~placed() { if (t) t->~T(); }
        T* operator->() { return t; }
        T* done() { T* r = t; t = 0; return r; }
        placed(placed const&) = delete;
    };
    // A specimen: a structure type plus how to build and observe it.  npaths() ways to build the same content.
    template <class T> T* at(void* m) { return static_cast<T*>(m); }

    inline void feed(bit_vector_builder& o, Bits const& b, int path)
    {
        if (path == 0) { for (uint8_t x : b) o.push_back(x); }
        else if (path == 1) { bit_vector_builder s(b.size()); for (size_t i = 0; i < b.size(); ++i) if (b[i]) s.set(i, 1); o.swap(s); }
        else if (path == 3) {   // one builder appended to another, after reserving
            bit_vector_builder l, r;
            size_t h = b.size() / 3;
            l.reserve(b.size() + 100);
            for (size_t i = 0; i < b.size(); ++i) (i < h ? l : r).push_back(b[i]);
            l.append(r);
            o.swap(l);
        } else if (path == 4) { // extensions by runs
            for (size_t i = 0; i < b.size();) {
                size_t j = i;
                while (j < b.size() && b[j] == b[i]) ++j;
                if (b[i]) o.one_extend(j - i); else o.zero_extend(j - i);
                i = j;
            }
        } else if (path == 5) { // reversed
            for (size_t i = b.size(); i-- > 0;) o.push_back(b[i]);
            o.reverse();
        } else if (path == 6) { // overwritten
            bit_vector_builder s(b.size(), 1);
            for (size_t i = 0; i < b.size(); ++i) s.set(i, b[i]);
            o.swap(s);
        } else {      // chunks of every length
            size_t l = 1;
            for (size_t i = 0; i < b.size();) {
                size_t n = std::min<size_t>(l, b.size() - i);
                uint64_t w = 0;
                for (size_t k = 0; k < n; ++k) w |= uint64_t(b[i + k]) << k;
                o.append_bits(w, n);
                i += n; l = l % 64 + 1;
            }
        }
    }

    template <class E> struct zvec {
        typedef mapper::mappable_vector<E> type;
        static const char* name() { return sizeof(E) == 8 ? "mappable_vector<uint64_t>" : sizeof(E) == 4 ? "mappable_vector<uint32_t>" : sizeof(E) == 2 ? "mappable_vector<int16_t>" : "mappable_vector<uint8_t>"; }
        static size_t npaths() { return 4; }
        static type* make(void* m, Content const& c, int p)
        {
            std::vector<E> v;
            for (uint64_t x : c.ints) v.push_back(E(x));
            if (p == 0) return new (m) type(v);
            if (p == 1) { std::list<E> l(v.begin(), v.end()); return new (m) type(l); }
            placed<type> t(m);
            if (p == 2) t->assign(v); else t->steal(v);
            return t.done();
        }
        static void look(type const& t, Dump& d) { see(t, d); }
    };
    struct zbits {
        typedef bit_vector type;
        static const char* name() { return "bit_vector"; }
        static size_t npaths() { return 9; }
        static type* make(void* m, Content const& c, int p)
        {
            if (p == 0) return new (m) type(c.bits);
            if (p == 8) { std::list<bool> l(c.bits.begin(), c.bits.end()); return new (m) type(l); }
            bit_vector_builder b; feed(b, c.bits, p - 1);
            return new (m) type(&b);
        }
        static void look(type const& t, Dump& d) { see(t, d); }
    };
    template <bool H1, bool H0> struct zrs {
        typedef rs_bit_vector type;
        static const char* name() { return H1 ? H0 ? "rs_bit_vector with both hints" : "rs_bit_vector with select hints" : H0 ? "rs_bit_vector with select0 hints" : "rs_bit_vector"; }
        static size_t npaths() { return 8; }
        static type* make(void* m, Content const& c, int p)
        {
            if (p == 0) return new (m) type(c.bits, H1, H0);
            bit_vector_builder b; feed(b, c.bits, p - 1);
            if (!H1 && !H0 && p % 2) return p == 1 ? new (m) type(c.bits) : new (m) type(&b);      // default arguments
            if (H1 && !H0 && p % 2) return p == 1 ? new (m) type(c.bits, true) : new (m) type(&b, true);
            return new (m) type(&b, H1, H0);
        }
        static void look(type const& t, Dump& d) { see(t, d); }
    };
    template <bool H1, bool H0> struct zbp {
        typedef bp_vector type;
        static const char* name() { return H1 ? H0 ? "bp_vector with both hints" : "bp_vector with select hints" : H0 ? "bp_vector with select0 hints" : "bp_vector"; }
        static size_t npaths() { return 8; }
        static type* make(void* m, Content const& c, int p)
        {
            if (p == 0) return new (m) type(c.parens, H1, H0);
            bit_vector_builder b; feed(b, c.parens, p - 1);
            if (!H1 && !H0 && p % 2) return p == 1 ? new (m) type(c.parens) : new (m) type(&b);
            if (H1 && !H0 && p % 2) return p == 1 ? new (m) type(c.parens, true) : new (m) type(&b, true);
            return new (m) type(&b, H1, H0);
        }
        static void look(type const& t, Dump& d) { see(t, d); }
    };
    template <class D> struct with_bits {
        bit_vector bv; D dir;
        template <typename V> void map(V& visit) { visit(bv, "bv")(dir, "dir"); }
        void swap(with_bits& o) { bv.swap(o.bv); dir.swap(o.dir); }
    };
    template <class D, bool ONE> struct zdarray {
        typedef with_bits<D> type;
        static const char* name() { return ONE ? "darray1" : "darray0"; }
        static size_t npaths() { return 2; }
        static type* make(void* m, Content const& c, int p)
        {
            placed<type> t(m);
            if (p == 0) bit_vector(c.bits).swap(t->bv);
            else { bit_vector_builder b; feed(b, c.bits, 2); bit_vector(&b).swap(t->bv); }
            D(t->bv).swap(t->dir);
            return t.done();
        }
        static void look(type const& t, Dump& d)
        {
            see(t.bv, d);
            d.push_back(t.dir.num_positions());
            for (size_t k : keys(t.dir.num_positions(), 200)) d.push_back(t.dir.select(t.bv, k));
        }
    };
    struct zdarray64 {
        typedef darray64 type;
        static const char* name() { return "darray64"; }
        static size_t npaths() { return 1; }
        static type* make(void* m, Content const& c, int)
        {
            darray64::builder b;
            for (uint64_t x : c.ints) b.append1(x % 64);
            return new (m) type(&b);
        }
        static void look(type const& t, Dump& d)
        {
            see(t.bits(), d);
            d.push_back(t.num_ones());
            for (size_t k : keys(t.num_ones(), 200)) d.push_back(t.select(k));
        }
    };
    template <bool RANK> struct zef {
        typedef elias_fano type;
        static const char* name() { return RANK ? "elias_fano" : "elias_fano without rank index"; }
        static size_t npaths() { return RANK ? 4 : 2; }
        static type* make(void* m, Content const& c, int p)
        {
            if (p == 0) { bit_vector_builder b; feed(b, c.bits, 0); return new (m) type(&b, RANK); }
            if (p == 2) { bit_vector_builder b; feed(b, c.bits, 1); return new (m) type(&b); }
            uint64_t ones = 0;
            for (uint8_t x : c.bits) ones += x;
            elias_fano::elias_fano_builder b(c.bits.size(), ones);
            for (size_t i = 0; i < c.bits.size(); ++i) if (c.bits[i]) b.push_back(i);
            return p == 3 ? new (m) type(&b) : new (m) type(&b, RANK);
        }
        static void look(type const& t, Dump& d)
        {
            size_t n = t.num_ones();
            d.push_back(t.size()); d.push_back(n);
            for (size_t k : keys(n, 100)) {
                d.push_back(t.select(k)); d.push_back(t.delta(k));
                if (k + 1 < n) { d.push_back(t.select_range(k).first); d.push_back(t.select_range(k).second); }
            }
            if (n) { elias_fano::select_enumerator e(t, n / 3); uint64_t h = 0; for (size_t i = n / 3; i < n; ++i) h = fold(h, e.next()); d.push_back(h); }
            if (RANK && t.size()) {
                for (size_t p : keys(t.size(), 80)) {
                    d.push_back(t[p]); d.push_back(t.rank(p));
                    if (n && p <= t.select(n - 1)) d.push_back(t.successor1(p));
                    if (n && p >= t.select(0)) d.push_back(t.predecessor1(p));
                }
                d.push_back(t.rank(t.size()));
            }
        }
    };
    template <class T> struct list_name;
    template <> struct list_name<elias_fano_list> { static const char* s() { return "elias_fano_list"; } };
    template <> struct list_name<elias_fano_compressed_list> { static const char* s() { return "elias_fano_compressed_list"; } };
    template <> struct list_name<gamma_vector> { static const char* s() { return "gamma_vector"; } };
    template <> struct list_name<gamma_bit_vector> { static const char* s() { return "gamma_bit_vector"; } };
    inline void see_more(elias_fano_list const& t, Dump& d) { d.push_back(t.sum()); }
    inline void see_more(elias_fano_compressed_list const&, Dump&) {}
    template <class T> void see_more(T const& t, Dump& d)
    {
        size_t n = t.size();
        for (size_t p : keys(n, 4)) { forward_enumerator<T> e(t, p); uint64_t h = 0; for (size_t i = p; i < n; ++i) h = fold(h, e.next()); d.push_back(h); }
    }
    template <class T> struct zlist {
        typedef T type;
        static const char* name() { return list_name<T>::s(); }
        static size_t npaths() { return 3; }
        static type* make(void* m, Content const& c, int p)
        {
            if (p == 0) return new (m) type(c.ints);
            if (p == 1) { std::list<uint64_t> l(c.ints.begin(), c.ints.end()); return new (m) type(l); }
            bool small = true;
            for (uint64_t x : c.ints) small = small && x < (uint64_t(1) << 32);
            if (!small) return new (m) type(c.ints);
            std::deque<uint32_t> l(c.ints.begin(), c.ints.end());
            return new (m) type(l);
        }
        static void look(type const& t, Dump& d) { see_seq(t, t.size(), d); see_more(t, d); }
    };
    struct znibbles {
        typedef nibble_vector type;
        static const char* name() { return "nibble_vector"; }
        static size_t npaths() { return 2; }
        static type* make(void* m, Content const& c, int p)
        {
            std::vector<uint8_t> v;
            for (uint64_t x : c.ints) v.push_back(uint8_t(x % 16));
            if (p == 0) return new (m) type(v);
            std::list<int> l(v.begin(), v.end());
            return new (m) type(l);
        }
        static void look(type const& t, Dump& d) { see_seq(t, t.size(), d); }
    };
    struct ztree {
        typedef cartesian_tree type;
        static const char* name() { return "cartesian_tree"; }
        static size_t npaths() { return 4; }
        static type* make(void* m, Content const& c, int p)
        {
            if (p == 0) return new (m) type(c.ints);
            if (p == 1) return new (m) type(c.ints, std::less<uint64_t>());
            cartesian_tree::builder<uint64_t> b(p == 2 ? 0 : c.ints.size());
            for (uint64_t x : c.ints) b.push_back(x, std::less<uint64_t>());
            return new (m) type(&b);
        }
        static void look(type const& t, Dump& d)
        {
            d.push_back(t.size());
            std::vector<size_t> k = keys(t.size(), 30);
            for (size_t i = 0; i < k.size(); ++i) for (size_t j = i; j < k.size(); ++j) d.push_back(t.rmq(k[i], k[j]));
            see(t.get_bp(), d);
        }
    };
    template <class T> struct elem { typedef uint64_t type; };
    template <class E> struct elem<mapper::mappable_vector<E> > { typedef E type; };
    template <class V> struct ztopk {
        typedef topk_vector<V> type;
        static const char* name() { static std::string s = std::string("topk_vector<") + sub((V*)0) + ">"; return s.c_str(); }
        static std::string sub(mapper::mappable_vector<uint64_t>*) { return "mappable_vector<uint64_t>"; }
        static std::string sub(mapper::mappable_vector<uint16_t>*) { return "mappable_vector<uint16_t>"; }
        template <class L> static std::string sub(L*) { return list_name<L>::s(); }
        static size_t npaths() { return 2; }
        static type* make(void* m, Content const& c, int p)
        {
            std::vector<typename elem<V>::type> v;
            for (uint64_t x : c.ints) v.push_back(typename elem<V>::type(x));
            if (p == 0) return new (m) type(v);
            std::deque<typename elem<V>::type> l(v.begin(), v.end());
            return new (m) type(l);
        }
        static void look(type const& t, Dump& d)
        {
            see_seq(t, t.size(), d);
            std::vector<size_t> k = keys(t.size(), 8);
            for (size_t i = 0; i < k.size(); ++i) for (size_t j = i; j < k.size(); j += 2) {
                typename type::entry_vector_type r = t.topk(k[i], k[j], 6);
                d.push_back(r.size());
                for (size_t q = 0; q < r.size(); ++q) { d.push_back(uint64_t(boost::get<0>(r[q]))); d.push_back(boost::get<1>(r[q])); }
            }
        }
    };
    // What a user writes: their own members of every plain type and nested structures, unaligned on purpose
    struct inner {
        uint8_t a; gamma_vector g; uint16_t b; mapper::mappable_vector<int16_t> v;
        inner() : a(0), b(0) {}
        template <typename V> void map(V& visit) { visit(a, "a")(g, "g")(b, "b")(v, "v"); }
        void swap(inner& o) { std::swap(a, o.a); g.swap(o.g); std::swap(b, o.b); v.swap(o.v); }
    };
    enum color { red = 1, blue = 7 };
    struct point { int32_t x; int32_t y; };
    struct user {
        bool f; double x; char c; color k; point p; inner one; uint32_t n; elias_fano ef; inner two; mapper::mappable_vector<double> pts; int64_t last;
        user() : f(false), x(0), c(0), k(red), n(0), last(0) { p.x = p.y = 0; }
        template <typename V> void map(V& visit) { visit(f, "f")(x, "x")(c, "c")(k, "k")(p, "p")(one, "one")(n, "n")(ef, "ef")(two, "two")(pts, "pts")(last, "last"); }
        void swap(user& o)
        {
            std::swap(f, o.f); std::swap(x, o.x); std::swap(c, o.c); std::swap(k, o.k); std::swap(p, o.p); one.swap(o.one);
            std::swap(n, o.n); ef.swap(o.ef); two.swap(o.two); pts.swap(o.pts); std::swap(last, o.last);
        }
    };
    struct zuser {
        typedef user type;
        static const char* name() { return "structure of the user's own"; }
        static size_t npaths() { return 1; }
        static type* make(void* m, Content const& c, int)
        {
            placed<type> t(m);
            size_t n = c.ints.size();
            t->f = true; t->x = double(n) + 0.5; t->c = char(n + 1); t->k = blue; t->p.x = -int32_t(n) - 1; t->p.y = int32_t(n * 3 + 5); t->n = uint32_t(n * 77 + 1); t->last = -int64_t(n) - 9;
            t->one.a = uint8_t(n + 3); t->one.b = uint16_t(n * 11 + 2); t->two.a = uint8_t(n * 5 + 7); t->two.b = uint16_t(n + 4);
            gamma_vector(c.ints).swap(t->one.g);
            std::vector<int16_t> s; std::vector<double> q;
            for (uint64_t x : c.ints) { s.push_back(int16_t(x)); q.push_back(double(x) / 4); }
            t->two.v.assign(s); t->one.v.steal(s); t->pts.steal(q);
            bit_vector_builder b; feed(b, c.bits, 0);
            elias_fano(&b).swap(t->ef);
            return t.done();
        }
        static void see_inner(inner const& i, Dump& d) { d.push_back(i.a); d.push_back(i.b); zlist<gamma_vector>::look(i.g, d); see(i.v, d); }
        static void look(type const& t, Dump& d)
        {
            d.push_back(t.f); d.push_back(uint64_t(t.x * 2)); d.push_back(uint64_t(t.c)); d.push_back(t.k); d.push_back(uint64_t(t.p.x)); d.push_back(uint64_t(t.p.y)); d.push_back(t.n); d.push_back(uint64_t(t.last));
            see_inner(t.one, d); see_inner(t.two, d);
            zef<true>::look(t.ef, d);
            d.push_back(t.pts.size());
            for (size_t i = 0; i < t.pts.size(); ++i) d.push_back(uint64_t(t.pts[i] * 4));
        }
    };

    // f.template operator()<Z>(number) for every specimen
    template <class F> void each(F& f)
    {
        size_t i = 0;
        f.template operator()<zvec<uint64_t> >(i++); f.template operator()<zvec<uint32_t> >(i++); f.template operator()<zvec<int16_t> >(i++); f.template operator()<zvec<uint8_t> >(i++);
        f.template operator()<zbits>(i++);
        f.template operator()<zrs<false, false> >(i++); f.template operator()<zrs<true, false> >(i++); f.template operator()<zrs<false, true> >(i++); f.template operator()<zrs<true, true> >(i++);
        f.template operator()<zbp<false, false> >(i++); f.template operator()<zbp<true, true> >(i++);
        f.template operator()<zdarray<darray1, true> >(i++); f.template operator()<zdarray<darray0, false> >(i++); f.template operator()<zdarray64>(i++);
        f.template operator()<zef<true> >(i++); f.template operator()<zef<false> >(i++);
        f.template operator()<zlist<elias_fano_list> >(i++); f.template operator()<zlist<elias_fano_compressed_list> >(i++);
        f.template operator()<zlist<gamma_vector> >(i++); f.template operator()<zlist<gamma_bit_vector> >(i++);
        f.template operator()<znibbles>(i++); f.template operator()<ztree>(i++);
        f.template operator()<ztopk<mapper::mappable_vector<uint64_t> > >(i++); f.template operator()<ztopk<mapper::mappable_vector<uint16_t> > >(i++);
        f.template operator()<ztopk<elias_fano_compressed_list> >(i++); f.template operator()<ztopk<gamma_vector> >(i++);
        f.template operator()<zuser>(i++);
    }

    template <class Z> Dump observe(typename Z::type const& t) { Dump d; Z::look(t, d); return d; }

    // bytes of frozen t
    template <class T> std::string frozen(T& t, std::string const& file)
    {
        succinct::mapper::freeze(t, file.c_str());
        std::ifstream in(file.c_str(), std::ios::binary);
        return std::string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
    }
}
