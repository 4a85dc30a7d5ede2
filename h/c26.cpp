// C26: freezing with every possible point of write failure
#include "zoobox.hpp"
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
#include <unistd.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <errno.h>
using namespace box;

// the write calls of the C++ library, one of which can be made to fail once (not in the sanitized build, which has its own)
#ifdef __SANITIZE_ADDRESS__
#define INTERPOSED 0
#else
#define INTERPOSED 1
namespace inject {
    enum kind { NONE, FAILS, INTERRUPTED, SHORT };
    static kind what; static int err; static long at = -1, calls; static bool done;
    static bool now() { return what != NONE && calls++ == at; }
}
extern "C" ssize_t write(int fd, const void* p, size_t n)
{
    if (inject::now()) {
        inject::done = true;
        if (inject::what == inject::FAILS) { errno = inject::err; return -1; }
        if (inject::what == inject::INTERRUPTED) { errno = EINTR; return -1; }
        if (n > 1) n = (n + 1) / 2;
    }
    return syscall(SYS_write, fd, p, n);
}
extern "C" ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (inject::now()) {
        inject::done = true;
        if (inject::what == inject::FAILS) { errno = inject::err; return -1; }
        if (inject::what == inject::INTERRUPTED) { errno = EINTR; return -1; }
        return syscall(SYS_write, fd, v[0].iov_base, (v[0].iov_len + 1) / 2);
    }
    return syscall(SYS_writev, fd, v, c);
}
#endif

// no file may grow past n bytes while this lives: the write that would do so is cut short, the next one fails
struct Limit {
    rlimit old;
    Limit(size_t n) { signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &old); rlimit r = old; r.rlim_cur = n; if (setrlimit(RLIMIT_FSIZE, &r)) { perror("setrlimit"); _exit(2); } }
    ~Limit() { setrlimit(RLIMIT_FSIZE, &old); }
};
enum { RETURNED, THREW, THREW_OTHER };

static void overwritten(std::string const& f, size_t n) { std::ofstream o(f.c_str(), std::ios::binary); o << std::string(n, 'z'); }

template <class T> static void one(T& t, std::string const& img, size_t cut, std::string const& how)
{
    std::string f = path("w");
    bool fits = cut >= img.size();
    // into a file of its own, which may have been there before
    for (int old = 0; old < 2; ++old) {
        if (old) overwritten(f, img.size() + 9); else unlink(f.c_str());
        int r; size_t n = 0;
        { Limit l(cut); try { n = mapper::freeze(t, f.c_str()); r = RETURNED; } catch (std::exception const&) { r = THREW; } catch (...) { r = THREW_OTHER; } }
        EQ(r, fits ? RETURNED : THREW, how << ": freezing to a file that can hold " << cut << " of " << img.size() << " bytes (0 returned, 1 threw an exception)");
        std::string got = slurp(f);
        if (fits) { EQ(n, img.size(), how << ": count returned"); OK(got == img, how << ": the file differs from the image"); }
        else OK(got.size() <= cut && img.compare(0, got.size(), got) == 0, how << ": what was written is not a beginning of the image");
    }
    // into a stream: its state tells once it is flushed; with exceptions enabled it throws
    for (size_t before : {size_t(0), size_t(5)}) for (int ex = 0; ex < 2; ++ex) {
        unlink(f.c_str());
        int r = RETURNED; bool good; size_t n = 0;
        {
            std::ofstream o(f.c_str(), std::ios::binary);
            o << std::string(before, 'b'); o.flush();
            Limit l(cut + before);
            if (ex) o.exceptions(std::ios::badbit | std::ios::failbit);
            try { n = mapper::freeze(t, o); o.flush(); } catch (std::exception const&) { r = THREW; } catch (...) { r = THREW_OTHER; }
            good = bool(o);
            o.exceptions(std::ios::goodbit);
            o.clear();
            o.close();
        }
        EQ(good, fits, how << ": state of a stream that can hold " << cut << " of " << img.size() << " bytes");
        EQ(r, ex && !fits ? THREW : RETURNED, how << ": exceptions of a stream that can hold " << cut << " of " << img.size() << " bytes");
        if (r == RETURNED) EQ(n, img.size(), how << ": count returned");
        std::string got = slurp(f);
        std::string want = std::string(before, 'b') + img;
        if (fits) OK(got == want, how << ": the file differs from the image");
        else OK(got.size() <= cut + before && want.compare(0, got.size(), got) == 0, how << ": what was written is not a beginning of the image");
    }
    unlink(f.c_str());
}
// one write call of the freeze fails and all later ones would succeed; or is interrupted or cut short, which is no failure
template <class T> static void passing(T& t, std::string const& img, std::string const& how)
{
#if INTERPOSED
    std::string f = path("w");
    for (auto mode : {std::make_pair(inject::FAILS, ENOSPC), std::make_pair(inject::FAILS, EIO), std::make_pair(inject::INTERRUPTED, 0), std::make_pair(inject::SHORT, 0)}) {
        for (long k = 0;; ++k) {
            bool fails = mode.first == inject::FAILS, happened = false;
            for (int to = 0; to < 3; ++to) {
                unlink(f.c_str());
                int r = RETURNED; size_t n = 0; bool good = true;
                std::ofstream o;
                if (to) o.open(f.c_str(), std::ios::binary);
                if (to == 2) o.exceptions(std::ios::badbit | std::ios::failbit);
                inject::what = mode.first; inject::err = mode.second; inject::at = k; inject::calls = 0; inject::done = false;
                try {
                    if (to) { n = mapper::freeze(t, o); o.flush(); } else n = mapper::freeze(t, f.c_str());
                } catch (std::exception const&) { r = THREW; } catch (...) { r = THREW_OTHER; }
                bool failed = inject::done && fails;
                inject::what = inject::NONE;
                happened = happened || inject::done;
                if (to) { good = bool(o); o.exceptions(std::ios::goodbit); o.clear(); o.close(); }
                std::string got = slurp(f);
                std::string at = how + ": write call " + std::to_string(k) + (fails ? " fails" : mode.first == inject::SHORT ? " takes only half" : " is interrupted");
                EQ(r, failed && to != 1 ? THREW : RETURNED, at << ", freezing to a " << (to ? "stream" : "file") << " (0 returned, 1 threw an exception)");
                if (to) EQ(good, !failed, at << ": state of the stream");
                if (r == RETURNED) EQ(n, img.size(), at << ": count returned");
                if (failed) OK(img.compare(0, got.size(), got) == 0, at << ": what was written is not a beginning of the image");
                else OK(got == img, at << ": the file differs from the image");
            }
            if (!happened) break;
        }
    }
    unlink(f.c_str());
#else
    (void)t; (void)img; (void)how;
#endif
}
template <class T> static void unwritable(T& t, std::string const& how)
{
    std::string d = path("d");
    mkdir(d.c_str(), 0700);
    for (std::string f : {std::string(""), d, d + "/no/file", d + "/" + std::string(300, 'n'), std::string("/dev/full")}) {
        if (f == "/dev/full") { struct stat st; if (stat("/dev/full", &st) || !S_ISCHR(st.st_mode)) continue; }
        int r;
        try { mapper::freeze(t, f.c_str()); r = RETURNED; } catch (std::exception const&) { r = THREW; } catch (...) { r = THREW_OTHER; }
        EQ(r, THREW, how << ": freezing to '" << f << "' (0 returned, 1 threw an exception)");
        std::ofstream o(f.c_str(), std::ios::binary);
        mapper::freeze(t, o); o.flush();
        OK(!o, how << ": state of a stream to '" << f << "'");
    }
    rmdir(d.c_str());
}

struct Faults {
    std::vector<Content> const& cs; bool big;
    template <class Z> void operator()(size_t zi)
    {
        for (size_t ci = 0; ci < cs.size() + 1; ++ci) {
            if (!mc::mine()) continue;
            bool deflt = ci == cs.size();
            std::string how = std::string(Z::name()) + " with " + (deflt ? std::string("nothing, default-constructed") : show(cs[ci]));
            if (mc::want_desc) mc::desc(how);
            mc::state(mc::mix(zi, ci));
            std::unique_ptr<Obj<Z>> p(deflt ? new Obj<Z>() : new Obj<Z>(cs[ci]));
            Dump before = zoo::observe<Z>(**p);
            std::string img = zoo::frozen(**p, path("i"));
            size_t n = img.size();
            std::vector<size_t> cuts;
            if (n <= (mc::thorough ? 3000u : 330u)) for (size_t k = 0; k <= n; ++k) cuts.push_back(k);
            else {
                for (size_t k = 0; k < n; k = k < 40 ? k + 1 : k + n / (big ? 20 : 40) + 1) cuts.push_back(k);
                for (size_t b = 1024; b < n; b *= 2) for (int e = -1; e <= 1; ++e) for (size_t m : {size_t(1), size_t(3)}) if (b * m + 1 < n) cuts.push_back(size_t(int64_t(b * m) + e));
                for (size_t k = 1; k <= 20; ++k) cuts.push_back(n - k);
                for (size_t k = 8191; k < n && k < 80000; k += 8191) cuts.push_back(k);
                cuts.push_back(n);
            }
            cuts.push_back(n + 1);
            for (size_t k : cuts) one(**p, img, k, how);
            unwritable(**p, how);
            passing(**p, img, how);
            same(zoo::observe<Z>(**p), before, how + ": after the failed freezes");
            OK(zoo::frozen(**p, path("i")) == img, how << ": the image after the failed freezes");
            // so does freezing a mapped one
            if (!big) {
                Buffer buf(img, 0);
                Obj<Z> m;
                mapper::map(*m, buf.p);
                for (size_t k = 0; k <= n; k += 1 + n / 7) one(*m, img, k, how + ", mapped");
                one(*m, img, n, how + ", mapped");
                OK(buf.intact(), how << ": mapped bytes changed");
            }
        }
    }
};
void explore()
{
    if (mc::section("every structure, every point of failure")) { auto cs = contents(mc::thorough ? 4 : 2); Faults f{cs, false}; zoo::each(f); }
    if (mc::section("large structures")) {
        std::vector<Content> cs;
        for (size_t n : {20000, mc::thorough ? 2000000 : 200000}) { Vals v; for (size_t i = 0; i < n; ++i) v.push_back(i % 60); cs.push_back(from(v)); }
        Faults f{cs, true}; zoo::each(f);
    }
}
MC_MAIN
