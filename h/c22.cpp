// C22: line readers against splitting the text
#include "ref.hpp"
#include "succinct/util.hpp"
#include <memory>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <sys/mman.h>
#include <string.h>
using namespace succinct;
typedef std::vector<std::string> Lines;

static Lines split(std::string const& t)        // with terminators
{
    Lines l; std::string cur;
    for (char c : t) { cur += c; if (c == '\n') { l.push_back(cur); cur.clear(); } }
    if (!cur.empty()) l.push_back(cur);
    return l;
}
static std::string strip_all(std::string s) { while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back(); return s; }
static std::string strip_one(std::string s) { if (!s.empty() && s.back() == '\n') s.pop_back(); if (!s.empty() && s.back() == '\r') s.pop_back(); return s; }
static std::string show(std::string const& t)
{
    std::string o;
    for (size_t i = 0; i < t.size();) {
        size_t j = i; while (j < t.size() && t[j] == t[i]) ++j;
        std::string c = t[i] == '\n' ? "\\n" : t[i] == '\r' ? "\\r" : std::string(1, t[i]);
        if (j - i > 4) { std::ostringstream os; os << c << "{" << j - i << "}"; o += os.str(); } else for (size_t k = i; k < j; ++k) o += c;
        i = j;
        if (o.size() > 200) { o += "..."; break; }
    }
    return "\"" + o + "\"";
}
static void eq(std::string const& got, std::string const& want, std::string const& t, const char* who, size_t i)
{
    ++mc::checks;
    if (got != want) OK(got == want, who << " line " << i << " of " << show(t) << ": got " << show(got) << " expected " << show(want));
}

struct Stream {
    FILE* f; std::string t;
    Stream(std::string const& s) : t(s) { f = t.empty() ? fopen("/dev/null", "rb") : fmemopen(&t[0], t.size(), "rb"); if (!f) { perror("fmemopen"); _exit(2); } }
    ~Stream() { fclose(f); }
};

static void stream_readers(std::string const& t)
{
    Lines l = split(t);
    for (int trim = 0; trim < 2; ++trim) {
        {
            Stream s(t);
            std::string line = "left over";
            for (size_t i = 0; i < l.size(); ++i) { OK(util::fast_getline(line, s.f, trim), "fast_getline ended before line " << i << " of " << show(t)); eq(line, trim ? strip_all(l[i]) : l[i], t, "fast_getline", i); }
            OK(!util::fast_getline(line, s.f, trim), "fast_getline returned more than the " << l.size() << " lines of " << show(t) << ": " << show(line));
            OK(!util::fast_getline(line, s.f, trim), "fast_getline after the end of " << show(t));
        }
        if (!trim) {        // default arguments: the standard input, no trimming
            Stream s(t);
            FILE* keep = stdin;
            stdin = s.f;
            std::string line = "left over";
            size_t i = 0;
            while (util::fast_getline(line)) { if (i >= l.size()) break; eq(line, l[i], t, "fast_getline of the standard input", i); ++i; if (i < l.size() && i % 2) { if (util::fast_getline(line, s.f)) eq(line, l[i], t, "fast_getline without trimming", i); ++i; } }
            stdin = keep;
            EQ(i, l.size(), "number of lines by fast_getline of the standard input " << show(t));
        }
        {
            Stream s(t);
            util::line_range_t r = trim ? util::lines(s.f, true) : util::lines(s.f);
            size_t i = 0;
            for (util::line_iterator it = r.first; it != r.second; ++it, ++i) { OK(i < l.size(), "lines() returned more than the " << l.size() << " lines of " << show(t)); eq(*it, trim ? strip_all(l[i]) : l[i], t, "lines()", i); OK(it->size() == it->length(), "operator->"); }
            EQ(i, l.size(), "number of lines by lines() of " << show(t));
        }
        {
            Stream s(t);
            Lines got;
            util::line_iterator it = trim ? util::line_iterator(s.f, true) : util::line_iterator(s.f), end;
            while (it != end) got.push_back(*it++);
            EQ(got.size(), l.size(), "number of lines by *it++ of " << show(t));
            for (size_t i = 0; i < l.size(); ++i) eq(got[i], trim ? strip_all(l[i]) : l[i], t, "*it++", i);
        }
    }
}
template <class It> static void buffer_walk(It b, It e, std::string const& t, const char* who)
{
    Lines l = split(t);
    size_t i = 0;
    It saved = b; size_t at = 0;
    for (It it = b; it != e; ++it, ++i) {
        OK(i < l.size(), who << " returned more than the " << l.size() << " lines of " << show(t));
        eq(*it, strip_one(l[i]), t, who, i);
        if (i == l.size() / 2) { saved = it; at = i; }
    }
    EQ(i, l.size(), "number of lines by " << who << " of " << show(t));
    // a saved copy resumes where it was taken
    for (i = at; saved != e; ++i) { OK(i < l.size(), who << " resumed"); eq(*saved++, strip_one(l[i]), t, who, i); }
    EQ(i, l.size(), "number of lines by resumed " << who << " of " << show(t));
}
static void buffer_reader(std::string const& t)
{
    std::unique_ptr<char[]> p(new char[t.size()]);       // nothing readable behind it
    memcpy(p.get(), t.data(), t.size());
    buffer_walk(util::buffer_line_iterator(p.get(), t.size()), util::buffer_line_iterator(), t, "buffer_line_iterator");
}
static void file_readers(std::string const& t)
{
    std::ostringstream fn; fn << mc::scratch << "/t" << getpid();
    { std::ofstream o(fn.str().c_str(), std::ios::binary); o << t; }
    if (!t.empty()) {
        util::mmap_lines m(fn.str());
        buffer_walk(m.begin(), m.end(), t, "mmap_lines");
        buffer_walk(m.begin(), m.end(), t, "mmap_lines again");
    }
    Lines l = split(t);
    util::auto_file f(fn.str().c_str());
    std::string line;
    size_t i = 0;
    while (util::fast_getline(line, f.get())) { OK(i < l.size(), "too many lines of a file"); eq(line, l[i], t, "fast_getline of a file", i); ++i; }
    EQ(i, l.size(), "number of lines of a file with " << show(t));
}
static void text(std::string const& t, bool file)
{
    if (mc::want_desc) mc::desc(show(t));
    mc::state(mc::hash_seq(t));
    stream_readers(t);
    buffer_reader(t);
    if (file) file_readers(t);
    std::string s = t;
    util::trim_newline_chars(s);
    eq(s, strip_all(t), t, "trim_newline_chars", 0);
}

static int lowest_fd() { int d = open("/dev/null", O_RDONLY); close(d); return d; }
static void opening(std::string const& name, const char* mode, bool expect)
{
    if (mc::want_desc) mc::desc("open " + name + " as " + mode);
    mc::state(mc::hash_seq(name, mc::hash_seq(std::string(mode))));
    int before = lowest_fd(), how = 0;
    std::string msg;
    try {
        util::auto_file f(name.c_str(), mode);
        how = 1;
        OK(f.get() != 0, "auto_file on " << name << " as " << mode << " has no stream");
        if (mode[0] == 'w') OK(fputs("text", f.get()) >= 0, "writing to " << name);
    }
    catch (std::invalid_argument const& e) { how = 2; msg = e.what(); }
    catch (...) { how = 3; }
    EQ(how, expect ? 1 : 2, "opening " << name << " as " << mode << " (1 opened, 2 invalid_argument, 3 other)");
    if (how == 2) OK(msg.find(name) != std::string::npos, "the error for " << name << " does not name it: " << msg);
    EQ(lowest_fd(), before, "descriptors open after using " << name);
    if (expect && mode[0] == 'w') { std::ifstream i(name.c_str()); std::string t; i >> t; eq(t, "text", name, "text written through auto_file", 0); }
}
static void adaptor(std::string const& t)
{
    if (mc::want_desc) mc::desc("adaptor of " + show(t));
    util::char_range r = util::stl_string_adaptor()(t);
    EQ(size_t(r.second - r.first), t.size() + 1, "length of the adaptor's range for " << show(t));
    for (size_t i = 0; i <= t.size(); ++i) EQ(int(r.first[i]), i < t.size() ? int(uint8_t(t[i])) : 0, "adaptor's character " << i << " of " << show(t));
    util::char_range q = util::identity_adaptor()(r);
    OK(q == r, "identity adaptor of " << show(t));
}

void explore()
{
    if (mc::section("opening files and string adaptors") && mc::mine()) {
        std::string d = mc::scratch + "/o" + std::to_string(getpid());
        mkdir(d.c_str(), 0700);
        { std::ofstream o((d + "/there").c_str()); o << "x\n"; }
        for (const char* m : {"rb", "r", "r+"}) { opening(d + "/there", m, true); opening(d + "/missing", m, false); opening(d + "/no/missing", m, false); opening("", m, false); opening(d + "/" + std::string(300, 'n'), m, false); }
        for (const char* m : {"wb", "w", "w+"}) { opening(d + "/made", m, true); opening(d + "/no/made", m, false); opening(d, m, false); }
        static const char c[] = {'a', char(0), char(0xFF), '\n'};
        ref::sequences(4, 5, [&](std::vector<size_t> const& s) { std::string t; for (size_t i : s) t += c[i]; adaptor(t); });
        for (size_t n = 0; n < 300; ++n) adaptor(std::string(n, 'q'));
    }
    if (mc::section("every short text")) {
        static const char c[] = {'a', '\n', '\r'};
        if (mc::mine()) text("", true);
        ref::sequences(3, mc::thorough ? 12 : 10, [&](std::vector<size_t> const& s) { if (!mc::mine()) return; std::string t; for (size_t i : s) t += c[i]; text(t, s.size() <= (mc::thorough ? 8u : 7u)); });
    }
    if (mc::section("every short text of other characters")) {
        static const char c[] = {char(0xFF), '\n', ' ', '\t', char(0x80), '\r', char(0x1A)};
        ref::sequences(7, mc::thorough ? 6 : 5, [&](std::vector<size_t> const& s) { if (!mc::mine()) return; std::string t; for (size_t i : s) t += c[i]; text(t, s.size() <= 4); });
    }
    if (mc::section("long lines")) {
        std::vector<size_t> L = {0, 1, 4094, 4095, 4096, 4097, 32767, 32768};
        for (size_t k = 1; k <= (mc::thorough ? 4u : 3u); ++k) for (int d = -4; d <= 4; ++d) L.push_back(k * 65535 + size_t(int64_t(d)));
        static const char* T[] = {"\n", "\r\n", "\r\r\n", "\n\n", "\r", ""};
        for (size_t n : L) for (const char* term : T) for (const char* next : {"", "b", "b\n", "\n", "\r\n", "\r"}) for (const char* before : {"", "x\n", "\n"}) {
            if (!mc::mine()) continue;
            text(before + std::string(n, 'a') + term + next, n > 60000 && n < 70000);
        }
        // two long lines in a row
        for (size_t n : {65533, 65534, 65535, 65536, 65537, 131070}) for (size_t m : {1, 65533, 65534, 65535, 65536, 131071}) for (const char* t1 : {"\n", "\r\n"}) for (const char* t2 : {"\n", "\r\n", ""}) {
            if (!mc::mine()) continue;
            text(std::string(n, 'a') + t1 + std::string(m, 'b') + t2, n == 65535);
        }
        // carriage returns inside, at every place around the chunk boundary
        for (size_t p = 65530; p <= 65540; ++p) for (size_t q = 1; q <= 3; ++q) for (size_t rest : {0, 1, 5}) for (const char* term : {"\n", "", "\r\n"}) {
            if (!mc::mine()) continue;
            text(std::string(p, 'a') + std::string(q, '\r') + std::string(rest, 'c') + term, false);
        }
    }
    if (mc::section("many lines"))
        for (size_t n : {100, 1000, 5000, 20000}) for (int k = 0; k < 6; ++k) {
            if (!mc::mine()) continue;
            std::string t;
            for (size_t i = 0; i < n; ++i) { t += std::string(k == 0 ? 0 : k == 1 ? i % 70 : k == 2 ? 13 : i % 5, char('a' + i % 26)); t += k == 3 ? "\r\n" : k == 4 && i % 3 == 0 ? "\r\r\n" : "\n"; }
            if (k == 5) t += "unterminated";
            text(t, true);
        }
    if (mc::cfg == "popcnt" && mc::section("a line of more than 2^31 and one of more than 2^32 characters"))
        for (int wide = 0; wide < 2; ++wide) {
            if (!mc::mine()) continue;
            const uint64_t n = (uint64_t(1) << (wide ? 32 : 31)) + 5000, size = n + 4 + 6;
            MC_DESC("ab\\r\\n, a line of " << n << " times c, \\r\\nd\\r\\n\\n through the " << (wide ? "buffer" : "stream") << " reader");
            mc::state(n);
            char* t = static_cast<char*>(mmap(0, size + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            OK(t != MAP_FAILED, "harness: no memory");
            memcpy(t, "ab\r\n", 4); memset(t + 4, 'c', n); memcpy(t + 4 + n, "\r\nd\r\n\n", 6);
            auto filled = [&](std::string const& l, uint64_t len) { EQ(l.size(), len, "length of the long line"); OK(l.find_first_not_of('c') >= n, "the long line holds something else than its characters"); };
            if (wide) {
                util::buffer_line_iterator it(t, size), end;
                OK(it != end, "first"); OK(*it == std::string("ab"), "first"); ++it;
                OK(it != end, "second"); filled(*it, n); ++it;
                OK(it != end, "third"); OK(*it == std::string("d"), "third"); ++it;
                OK(it != end, "fourth"); OK(*it == std::string(), "fourth"); ++it;
                OK(it == end, "end");
            } else for (int trim = 0; trim < 2; ++trim) {
                FILE* f = fmemopen(t, size, "rb");
                OK(f, "harness: fmemopen");
                std::string l;
                OK(util::fast_getline(l, f, trim), "first"); OK(l == std::string(trim ? "ab" : "ab\r\n"), "first");
                OK(util::fast_getline(l, f, trim), "second"); filled(l, trim ? n : n + 2); if (!trim) OK(l.substr(n) == std::string("\r\n"), "terminator");
                OK(util::fast_getline(l, f, trim), "third"); OK(l == std::string(trim ? "d" : "d\r\n"), "third");
                OK(util::fast_getline(l, f, trim), "fourth"); OK(l == std::string(trim ? "" : "\n"), "fourth");
                OK(!util::fast_getline(l, f, trim), "end");
                fclose(f);
            }
            munmap(t, size + 4096);
        }
    // one stream, read by any mixture of the readers
    if (mc::section("mixed readers")) {
        Lines texts = {"a\n\nb\r\n\r\nc", "\n\n\r\nx\n", "a\r\r\nb\r", std::string(65535, 'a') + "\n" + std::string(65536, 'b') + "\r\nc\n", ""};
        for (std::string const& t : texts)
            ref::sequences(3, t.size() > 1000 ? 4 : mc::thorough ? 9 : 7, [&](std::vector<size_t> const& s) {
                if (!mc::mine()) return;
                MC_DESC(s.size() << " reads of " << show(t));
                mc::state(mc::hash_seq(s, mc::hash_seq(t)));
                Lines l = split(t);
                Stream f(t);
                std::string line = "junk";
                size_t i = 0;
                for (size_t o : s) {
                    bool more = i < l.size();
                    if (o < 2) {
                        EQ(util::fast_getline(line, f.f, o == 1), more, "fast_getline at line " << i << " of " << show(t));
                        if (more) eq(line, o ? strip_all(l[i]) : l[i], t, "fast_getline", i);
                    } else {
                        util::line_iterator it(f.f, true), end;
                        EQ(it != end, more, "line_iterator at line " << i << " of " << show(t));
                        if (more) eq(*it, strip_all(l[i]), t, "line_iterator", i);
                    }
                    if (more) ++i;
                }
            });
    }
}
MC_MAIN
