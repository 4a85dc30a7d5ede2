// Controlled execution of instrumented code.  Code compiled with -fsanitize=thread calls the hooks in c23_rt.cpp
// (which replace the sanitizer's own runtime) before every memory access; the hooks record the access and hand
// control from thread to thread at chosen accesses.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <vector>

namespace sched {
    struct Access { uintptr_t lo, hi; bool write; bool operator<(Access const& o) const { return lo < o.lo || (lo == o.lo && (hi < o.hi || (hi == o.hi && write < o.write))); } };
    typedef std::vector<Access> Footprint;      // shared memory touched, merged and sorted
    typedef std::function<uint64_t()> Op;

    // One run: threads[i] is the list of operations of thread i.  Thread `first` starts; at the n-th access that touches
    // `points`, for every n in `switches`, control passes to the other thread; a finished thread passes it on.
    struct Run {
        std::vector<std::vector<Op> > threads;
        size_t first;
        std::vector<uint64_t> switches;
        Footprint points;
        // results
        std::vector<std::vector<uint64_t> > answers;
        std::vector<Footprint> touched;
        uint64_t npoints;
        bool stuck;
    };
    void execute(Run& r);
    bool instrumented();
}
