// The released library (released/, renamed by macro to rel_succinct), behind a neutral interface
#include <cassert>
#include <iterator>
#include "zoo.hpp"
#include "succinct/rs_bit_vector.cpp"
#include "succinct/bp_vector.cpp"

namespace {
    struct Make {
        size_t want; zoo::Content const* c; std::string file; std::string image; Dump dump;
        template <class Z> void operator()(size_t i)
        {
            if (i != want) return;
            typedef typename Z::type T;
            void* m = ::operator new(sizeof(T));
            std::memset(m, 0, sizeof(T));
            T* t = c ? Z::make(m, *c, 0) : new (m) T();
            dump = zoo::observe<Z>(*t);
            image = zoo::frozen(*t, file);
            t->~T();
            ::operator delete(m);
        }
    };
}

// what the released library answers and freezes for structure number i of a content (default-constructed if none)
void released(size_t i, Vals const* ints, Bits const* bits, Bits const* parens, std::string const& file, std::string& image, Dump& dump)
{
    zoo::Content c;
    if (ints) { c.ints = *ints; c.bits = *bits; c.parens = *parens; }
    Make m;
    m.want = i; m.c = ints ? &c : 0; m.file = file;
    zoo::each(m);
    image.swap(m.image); dump.swap(m.dump);
}
