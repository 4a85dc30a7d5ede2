// Explorer core: enumerates a finite, totally ordered space of cases, runs each of them on the real
// code, and compares every step with a reference.  The space is split over forked workers; counters,
// the set of distinct states and the smallest failing case live in shared memory.
//
//   void explore();                        // supplied by the harness
//   if (mc::section("name")) ... if (mc::mine()) { MC_DESC(...); ...; EQ(real, ref, what); mc::state(h); }
//
// A case is identified by (section, index); "--replay section:index" runs that one case alone.
#pragma once
#include <atomic>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <csignal>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

void explore();

namespace mc {

    static const uint64_t NONE = ~uint64_t(0);
    static const int MAXSEC = 64, MAXW = 64;

    struct Slot {
        volatile uint64_t cur;          // section << 40 | index of the case being run
        uint64_t cases, checks;
        uint64_t per_section[MAXSEC];
        uint64_t skipped;
        int status;                     // 0 running/ok, 1 mismatch, 3 hang
        char msg[4096];
        char samples[6000];
    };

    struct Shared {
        std::atomic<uint64_t> best_fail, states, outcomes, state_cap, cut;      // cut: a budget ended some part early
        char names[MAXSEC][64];
        Slot slots[MAXW];
    };

    inline Shared* sh = 0;
    inline Slot* slot = 0;
    inline std::atomic<uint64_t>* state_tab = 0;
    inline std::atomic<uint64_t>* outcome_tab = 0;
    static const uint64_t STATE_BITS = 26, OUT_BITS = 22;

    inline int W = 1, w = 0;
    inline bool thorough = false;
    inline std::string cfg, scratch;
    inline bool replay = false;
    inline std::string replay_sec;
    inline uint64_t replay_idx = 0;
    inline bool replay_ran = false;

    inline int sec = -1;
    inline uint64_t idx = 0;
    inline bool sec_on = false;
    inline bool want_desc = false;
    inline uint64_t checks = 0;
    inline long hang_limit = 120;       // seconds of CPU time for one case
    inline volatile bool patient = false; // in a section of very large cases: more time for each
    enum { PATIENCE = 300 };
    inline volatile uint64_t hang_case = NONE;
    inline volatile long hang_ticks = 0;

    struct stop {};

    inline bool section(const char* name)
    {
        ++sec;
        if (sec >= MAXSEC) { fprintf(stderr, "too many sections\n"); _exit(2); }
        patient = strstr(name, "more than 2^3") != 0;
        idx = 0;
        strncpy(sh->names[sec], name, 63);
        sec_on = !replay || replay_sec == name;
        return sec_on;
    }

    inline bool mine()
    {
        uint64_t i = idx++;
        if (replay) {
            if (i != replay_idx) {
                if (replay_ran) throw stop();
                return false;
            }
            replay_ran = true;
            want_desc = true;
            slot->cases++;
            return true;
        }
        if ((i + uint64_t(sec)) % uint64_t(W) != uint64_t(w)) return false; // so that single large cases of several sections run side by side
        uint64_t ord = uint64_t(sec) << 40 | i;
        if (ord > sh->best_fail.load(std::memory_order_relaxed)) throw stop();
        slot->cur = ord;
        slot->cases++;
        slot->checks = checks;
        uint64_t n = ++slot->per_section[sec];
        want_desc = (w == 0 && (n == 2 || n == 40));
        return true;
    }

    inline void desc(std::string const& s)
    {
        if (replay) { std::cout << "CASE " << s << std::endl; return; }
        size_t l = strlen(slot->samples);
        std::string t = std::string(sh->names[sec]) + ": " + s.substr(0, 300) + "\n";
        if (l + t.size() + 1 < sizeof(slot->samples)) strcpy(slot->samples + l, t.c_str());
    }

    inline void lower_best(uint64_t ord)
    {
        uint64_t b = sh->best_fail.load();
        while (ord < b && !sh->best_fail.compare_exchange_weak(b, ord)) {}
    }

    [[noreturn]] inline void fail(std::string const& m)
    {
        if (replay) {
            std::cout << "FAIL " << m << std::endl;
            _exit(1);
        }
        slot->status = 1;
        strncpy(slot->msg, m.c_str(), sizeof(slot->msg) - 1);
        slot->checks = checks;
        lower_best(slot->cur);
        _exit(1);
    }

    inline uint64_t mix(uint64_t h, uint64_t v)
    {
        h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
        return h;
    }

    inline void insert(std::atomic<uint64_t>* tab, uint64_t bits, uint64_t h, std::atomic<uint64_t>& cnt)
    {
        if (!tab) return;
        h = mix(0x1234, h);
        if (!h) h = 1;
        uint64_t m = (uint64_t(1) << bits) - 1, p = h & m;
        if (cnt.load(std::memory_order_relaxed) > (m / 4) * 3) { sh->state_cap = 1; return; }
        for (;;) {
            uint64_t v = tab[p].load(std::memory_order_relaxed);
            if (v == h) return;
            if (!v) {
                if (tab[p].compare_exchange_strong(v, h)) { cnt++; return; }
                if (v == h) return;
            }
            p = (p + 1) & m;
        }
    }
    inline void state(uint64_t h) { insert(state_tab, STATE_BITS, h, sh->states); }
    inline void outcome(uint64_t h) { insert(outcome_tab, OUT_BITS, h, sh->outcomes); }

    template <typename V> inline uint64_t hash_seq(V const& v, uint64_t h = 7)
    {
        h = mix(h, v.size());
        for (auto const& x : v) h = mix(h, uint64_t(x));
        return h;
    }

    inline void on_prof(int)
    {
        uint64_t c = replay ? 0 : uint64_t(slot->cur);
        if (c != hang_case) { hang_case = c; hang_ticks = 0; return; }
        if (++hang_ticks < (patient ? std::max<long>(hang_limit, PATIENCE) : hang_limit)) return;
        if (replay) { static const char m[] = "FAIL the case does not terminate\n"; (void)!write(1, m, sizeof m - 1); _exit(1); }
        slot->status = 3;
        _exit(3);
    }

    inline void arm()
    {
        signal(SIGPROF, on_prof);
        struct itimerval t = {{1, 0}, {1, 0}};
        setitimer(ITIMER_PROF, &t, 0);
    }

    inline std::string jstr(std::string const& s)
    {
        std::string o = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
            else if (c == '\n') o += "\\n";
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
            else o += char(c);
        }
        return o + "\"";
    }

    inline void* shm(size_t n)
    {
        void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
        return p;
    }

    inline int main_(int argc, char** argv)
    {
        std::string out;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            if (a == "--tier") thorough = std::string(argv[++i]) == "thorough";
            else if (a == "--workers") W = atoi(argv[++i]);
            else if (a == "--out") out = argv[++i];
            else if (a == "--cfg") cfg = argv[++i];
            else if (a == "--scratch") scratch = argv[++i];
            else if (a == "--hang") hang_limit = atol(argv[++i]);
            else if (a == "--replay") {
                std::string r = argv[++i];
                size_t c = r.rfind(':');
                replay = true;
                replay_sec = r.substr(0, c);
                replay_idx = strtoull(r.c_str() + c + 1, 0, 10);
            } else { fprintf(stderr, "bad argument %s\n", argv[i]); return 2; }
        }
        if (W > MAXW) W = MAXW;
        sh = (Shared*)shm(sizeof(Shared));
        sh->best_fail = NONE;
        if (replay) {
            W = 1;
            slot = &sh->slots[0];
            arm();
            try { explore(); } catch (stop const&) {}
            if (!replay_ran) { std::cout << "no such case" << std::endl; return 2; }
            std::cout << "OK checks=" << checks << std::endl;
            fflush(0);
            _exit(0);
        }
        state_tab = (std::atomic<uint64_t>*)shm(sizeof(uint64_t) << STATE_BITS);
        outcome_tab = (std::atomic<uint64_t>*)shm(sizeof(uint64_t) << OUT_BITS);
        std::vector<pid_t> pids;
        fflush(0);
        for (int k = 0; k < W; ++k) {
            pid_t p = fork();
            if (p < 0) { perror("fork"); return 2; }
            if (!p) {
                w = k;
                slot = &sh->slots[k];
                slot->cur = NONE;
                arm();
                try { explore(); } catch (stop const&) {}
                slot->checks = checks;
                fflush(0);
                _exit(0);
            }
            pids.push_back(p);
        }
        std::vector<int> sts(size_t(W), 0);
        for (int n = 0; n < W; ++n) {
            int st;
            pid_t p = wait(&st);
            size_t k = size_t(std::find(pids.begin(), pids.end(), p) - pids.begin());
            sts[k] = st;
            if (st != 0 && sh->slots[k].status != 1 && sh->slots[k].cur != NONE) lower_best(sh->slots[k].cur);
        }
        uint64_t cases = 0, chk = 0, per[MAXSEC] = {0};
        for (int k = 0; k < W; ++k) {
            cases += sh->slots[k].cases;
            chk += sh->slots[k].checks;
            for (int s = 0; s < MAXSEC; ++s) per[s] += sh->slots[k].per_section[s];
        }
        std::ostringstream os;
        os << "{\"cases\": " << cases << ", \"checks\": " << chk << ", \"states\": " << sh->states
           << ", \"outcomes\": " << sh->outcomes << ", \"state_cap\": " << sh->state_cap << ", \"cut\": " << sh->cut << ", \"sections\": {";
        bool first = true;
        for (int s = 0; s < MAXSEC; ++s) if (sh->names[s][0]) {
            os << (first ? "" : ", ") << jstr(sh->names[s]) << ": " << per[s];
            first = false;
        }
        os << "}, \"samples\": " << jstr(sh->slots[0].samples);
        uint64_t b = sh->best_fail;
        bool died = false;
        for (int k = 0; k < W; ++k) if (sts[k] != 0 && sh->slots[k].cur == NONE) died = true;
        if (died) os << ", \"error\": \"worker died outside any case\"";
        if (b != NONE) {
            const char* kind = "crash";
            std::string msg;
            int st = 0;
            for (int k = 0; k < W; ++k) if (sts[k] != 0 && sh->slots[k].cur == b) {
                st = sts[k];
                if (sh->slots[k].status == 1) { kind = "mismatch"; msg = sh->slots[k].msg; }
                else if (sh->slots[k].status == 3) { kind = "hang"; }
                break;
            }
            os << ", \"fail\": {\"section\": " << jstr(sh->names[b >> 40]) << ", \"index\": " << (b & ((uint64_t(1) << 40) - 1))
               << ", \"kind\": \"" << kind << "\", \"wait_status\": " << st << ", \"msg\": " << jstr(msg) << "}";
        }
        os << "}\n";
        if (out.empty()) std::cout << os.str();
        else { FILE* f = fopen(out.c_str(), "w"); fputs(os.str().c_str(), f); fclose(f); }
        return b != NONE ? 1 : died ? 2 : 0;
    }
}

#define MC_DESC(expr) do { if (mc::want_desc) { std::ostringstream os_; os_ << expr; mc::desc(os_.str()); } } while (0)

#define EQ(real, ref, what) do { \
        auto const real_ = (real); auto const ref_ = (ref); ++mc::checks; \
        if (!(real_ == ref_)) { std::ostringstream os_; \
            os_ << what << ": " #real " = " << +real_ << ", expected " << +ref_ << " (" << __FILE__ << ":" << __LINE__ << ")"; \
            mc::fail(os_.str()); } } while (0)

#define OK(cond, what) do { ++mc::checks; \
        if (!(cond)) { std::ostringstream os_; os_ << what << ": not " #cond " (" << __FILE__ << ":" << __LINE__ << ")"; \
            mc::fail(os_.str()); } } while (0)

#define MC_MAIN int main(int argc, char** argv) { return mc::main_(argc, argv); }
