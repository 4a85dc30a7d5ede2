// Holding zoo objects, files and buffers; shared by the persistence and ownership checks
#pragma once
#include "ref.hpp"
#include "zoo.hpp"
#include <boost/iostreams/device/mapped_file.hpp>
#include <memory>
using namespace succinct;
using zoo::Content;

namespace box {
    inline std::string path(const char* n) { std::ostringstream os; os << mc::scratch << "/f" << getpid() << "." << n; return os.str(); }
    inline std::string slurp(std::string const& f) { std::ifstream in(f.c_str(), std::ios::binary); return std::string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>()); }

    // An object in storage filled with a pattern beforehand
    template <class Z> struct Obj {
        typedef typename Z::type T;
        void* m; T* t;
        Obj(Content const& c, int p = 0, int fill = 0x5A) : m(::operator new(sizeof(T))) { memset(m, fill, sizeof(T)); t = Z::make(m, c, p); }
        Obj() : m(::operator new(sizeof(T))) { memset(m, 0xA5, sizeof(T)); t = new (m) T(); }
        ~Obj() { t->~T(); ::operator delete(m); }
        Obj(Obj const&) = delete;
        T& operator*() { return *t; }
    };

    inline void same(Dump const& a, Dump const& b, std::string const& how)
    {
        EQ(a.size(), b.size(), how << ": number of answers");
        for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) EQ(a[i], b[i], how << ": answer " << i);
        mc::checks += a.size();
    }

    // exactly n bytes, starting off bytes into an allocation: under ASan nothing behind them may be read
    struct Buffer {
        char* raw; char* p; std::string copy;
        Buffer(std::string const& s, size_t off) : raw((char*)malloc(off + s.size() + (off + s.size() == 0))), p(raw + off), copy(s) { memset(raw, 0xEE, off); memcpy(p, s.data(), s.size()); }
        bool intact() const { return !memcmp(p, copy.data(), copy.size()); }
        ~Buffer() { free(raw); }
        Buffer(Buffer const&) = delete;
    };

    inline Content from(Vals const& v)
    {
        Content c;
        c.ints = v;
        c.bits = zoo::bits_of(v, 300, v.size() % 3 == 2 ? 7 : 0);
        c.parens = zoo::parens_of(v, false);
        return c;
    }
    inline std::string show(Content const& c)
    {
        std::ostringstream os;
        os << c.ints.size() << " integers";
        for (size_t i = 0; i < c.ints.size() && i < 12; ++i) os << " " << c.ints[i];
        os << "; " << ref::show(c.bits).substr(0, 60);
        return os.str();
    }
    // standard contents, then every short sequence over a menu
    inline std::vector<Content> contents(size_t len)
    {
        std::vector<Content> r;
        for (size_t c = 0; c < zoo::NCONTENT; ++c) r.push_back(zoo::content(c));
        static const uint64_t menu[] = {0, 1, 5, 63};
        ref::sequences(4, len, [&](std::vector<size_t> const& s) { Vals v; for (size_t i : s) v.push_back(menu[i]); r.push_back(from(v)); });
        for (size_t n : {31, 32, 33, 64, 127, 128, 129, 512, 1023, 1024, 1025}) for (uint64_t k : {0, 1, 7}) { Vals v; for (size_t i = 0; i < n; ++i) v.push_back(k == 1 ? i % 6 : k); r.push_back(from(v)); }
        return r;
    }
    static const size_t NLARGE = zoo::NCONTENT;
}
