// C16: printing to C and C++ streams
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <deque>
#include <fcntl.h>
#include <fstream>
#include <iomanip>
#include <memory>
#include <poll.h>
#include <sstream>
#include <sys/mman.h>
#include <system_error>
#include <termios.h>
#include <thread>
#include <unistd.h>
#include <papilio/print.hpp>
#include "gen.hpp"
using namespace vh;
#define CK(cond, key, ...) c.check((cond), key, [&] { return cat(__VA_ARGS__); })

namespace
{
struct boom : std::runtime_error { boom() : std::runtime_error("boom") {} };
// writes something and throws
struct bomb { bool armed; };
} // namespace
template <typename C>
class papilio::formatter<bomb, C>
{
public:
    template <typename P>
    auto parse(P& ctx) { return ctx.begin(); }
    template <typename X>
    auto format(const bomb& b, X& ctx) const
    {
        papilio::format_context_traits<X>::append(ctx, "half of");
        if(b.armed) throw boom();
        papilio::format_context_traits<X>::append(ctx, " it");
        return ctx.out();
    }
};

namespace
{
struct job
{
    std::vector<gen::value> pos, named;
    std::string fmt, want;
    bool error = false;
    std::string s, name;
    bomb b{false};
    bool with_bomb = false;
    std::string show() const { return cat(vh::show(std::string_view(fmt)), " with", gen::describe(pos, named)); }
};
job make_job(Rng& r)
{
    job j;
    j.pos = {gen::random_value(r, gen::value::k_int), gen::random_value(r, gen::value::k_uint), gen::random_value(r, gen::value::k_str), gen::random_value(r, gen::value::k_char), gen::random_value(r, gen::value::k_bool)};
    j.named = {gen::random_value(r, gen::value::k_str)};
    j.named[0].name = U"name";
    gen::model m{r, j.pos, j.named};
    bool wild = r.chance(1, 12);
    int n = static_cast<int>(r.below(6));
    for(int k = 0; k < n; ++k) { m.literal(); m.field(wild); }
    m.literal();
    j.fmt = ref::enc<char>(m.fmt);
    j.want = ref::enc<char>(m.out);
    j.error = m.error;
    if(!m.error && r.chance(1, 8))
    {
        // the output becomes long
        std::size_t len = r.pick({std::size_t(500), std::size_t(4000), std::size_t(4096), std::size_t(9000), std::size_t(70000)}) + r.below(3);
        std::string t(len, static_cast<char>('a' + r.below(26)));
        for(std::size_t i = 0; i < t.size(); i += 37) t[i] = static_cast<char>('A' + (i / 37) % 26);
        if(r.coin()) { j.fmt += t; j.want += t; }
        else { j.fmt = t + j.fmt; j.want = t + j.want; }
    }
    if(r.chance(1, 10))
    {
        j.with_bomb = true;
        j.b.armed = r.coin();
        j.fmt += "{bomb}";
        if(m.error) {}
        else { j.want += "half of it"; j.error = j.b.armed; }
    }
    j.s = ref::enc<char>(j.pos[2].s);
    j.name = ref::enc<char>(j.named[0].s);
    return j;
}
// calls f(fmt, arguments...)
template <typename F>
void with_args(const job& j, F&& f)
{
    f(std::string_view(j.fmt), j.pos[0].i, j.pos[1].u, std::string_view(j.s), static_cast<char>(j.pos[3].s[0]), j.pos[4].i != 0, papilio::arg("name", std::string_view(j.name)), papilio::arg("bomb", j.b));
}

enum outcome { ok, format_failed, io_failed, other };
template <typename F>
outcome attempt(F&& f, std::string& what)
{
    try { f(); return ok; }
    catch(const boom&) { return format_failed; }
    catch(const std::ios_base::failure& e) { what = e.what(); return io_failed; }
    catch(const std::system_error& e) { what = e.what(); return io_failed; }
    catch(const std::exception& e) { what = e.what(); return format_failed; }
    catch(...) { what = "something else"; return other; }
}

// a C stream whose writes are recorded and may fail
struct sink
{
    std::string got;
    long long budget = -1; // bytes before the fault
    int kind = 0;          // 0: error, 1: short write then error
    bool faulted = false;
    int calls = 0;
    static ssize_t write(void* p, const char* b, size_t n)
    {
        sink& s = *static_cast<sink*>(p);
        ++s.calls;
        if(s.budget < 0) { s.got.append(b, n); return static_cast<ssize_t>(n); }
        if(static_cast<long long>(n) <= s.budget) { s.budget -= static_cast<long long>(n); s.got.append(b, n); return static_cast<ssize_t>(n); }
        s.faulted = true;
        std::size_t part = static_cast<std::size_t>(s.budget);
        s.budget = 0;
        if(s.kind == 1 && part) { s.got.append(b, part); return static_cast<ssize_t>(part); }
        errno = EIO;
        return 0; // what a cookie function returns on failure
    }
};
void run_c_stream(Case& c, bool faults)
{
    auto& r = c.rng;
    sink s;
    if(faults) { s.budget = r.chance(1, 4) ? r.range(0, 5) : r.range(0, r.chance(1, 5) ? 80000 : 200); s.kind = static_cast<int>(r.below(2)); }
    cookie_io_functions_t fn{};
    fn.write = &sink::write;
    std::FILE* f = fopencookie(&s, "w", fn);
    std::vector<char> buf(1 + r.below(r.coin() ? 16 : 9000));
    const int mode = static_cast<int>(r.below(4));
    const char* names[] = {"unbuffered", "line buffered", "fully buffered", "default buffer"};
    if(mode == 0) std::setvbuf(f, nullptr, _IONBF, 0);
    else if(mode == 1) std::setvbuf(f, buf.data(), _IOLBF, buf.size());
    else if(mode == 2) std::setvbuf(f, buf.data(), _IOFBF, buf.size());
    c.desc(cat(names[mode], " buffer ", buf.size(), faults ? cat(" fault after ", s.budget, s.kind ? " short" : " error") : std::string()));
    const bool as_stdout = r.chance(1, 4);
    std::FILE* old = stdout;
    std::string expect;
    int n = 1 + static_cast<int>(r.below(8));
    bool stop = false;
    std::uint64_t sig = 0;
    for(int k = 0; k < n && !stop; ++k)
    {
        if(r.chance(1, 4) && !faults)
        {
            std::string own(r.below(30), 'u');
            std::fputs(own.c_str(), f);
            expect += own;
            c.count("own_writes");
        }
        job j = make_job(r);
        auto op = r.below(5);
        if(op == 4 && r.coin()) op = 3;
        std::string want = op == 4 ? "\n" : j.want + (op % 2 ? "\n" : "");
        bool error = op == 4 ? false : j.error;
        c.more(cat("\n", as_stdout ? "stdout " : "", op == 4 ? "println()" : op % 2 ? "println " : "print ", op == 4 ? std::string() : j.show()));
        std::string what;
        bool before = s.faulted;
        const std::string was = s.got;
        if(as_stdout) stdout = f;
        outcome o = attempt([&]
        {
            if(op == 4) { as_stdout ? papilio::println() : papilio::println(f); }
            else if(as_stdout)
                with_args(j, [&](std::string_view fmt, const auto&... a) { if(op % 2) papilio::println(fmt, a...); else papilio::print(fmt, a...); });
            else
                with_args(j, [&](std::string_view fmt, const auto&... a) { if(op % 2) papilio::println(f, fmt, a...); else papilio::print(f, fmt, a...); });
        }, what);
        stdout = old;
        if(error)
        {
            CK(o == format_failed, "an error in the format is not reported", j.show(), " outcome ", static_cast<int>(o));
            CK(s.got == was || (!faults && s.got == expect), "something was written although formatting failed", vh::show(std::string_view(s.got).substr(0, 300)));
            c.count("formatting_failed");
        }
        else if(o == format_failed || o == other) CK(false, "printing failed", what, " ", j.show());
        else if(s.faulted && !before)
        {
            CK(o == io_failed, "a failed write is reported as success", names[mode], " wrote ", s.got.size() - was.size(), " of ", want.size());
            CK((expect + want).substr(0, s.got.size()) == s.got, "the bytes before the fault", "");
            c.count("write_faults");
            c.count(cat("faults_", names[mode]).c_str());
            stop = true;
        }
        else
        {
            expect += want;
            CK(o == ok, "success is reported as a failure", what);
            CK(s.got == expect, "bytes", "got ", vh::show(std::string_view(s.got).substr(was.size(), 300)), " want ", vh::show(std::string_view(expect).substr(std::min(was.size(), expect.size()), 300)));
            c.count("prints");
            if(want.size() > 4000) c.count("long_prints");
        }
        sig = mix64(sig ^ hash_str(j.fmt));
    }
    if(stop)
    {
        // the stream can be used again once the fault is gone
        s.budget = -1;
        std::clearerr(f);
        std::string what;
        outcome o = attempt([&] { papilio::print(f, "{}#{}", 12, "after"); }, what);
        CK(o == ok && s.got.ends_with("12#after"), "printing after a fault", what, " ", static_cast<int>(o));
        c.count("recovered");
    }
    std::fclose(f);
    if(!stop) CK(s.got == expect, "bytes after closing", s.got.size(), " want ", expect.size());
    c.nontrivial(sig);
    if(c.index % 499 == 0) c.sample(cat(names[mode], " ", s.calls, " write calls, ", s.got.size(), " bytes", stop ? ", fault" : ""));
}

// a C++ stream buffer that records and may fail
struct rec_buf : std::streambuf
{
    std::string got;
    long long budget = -1;
    int kind = 0; // 0: end of file, 1: exception
    bool faulted = false;
    bool take(char ch)
    {
        if(budget == 0) { faulted = true; if(kind == 1) throw std::runtime_error("device"); return false; }
        if(budget > 0) --budget;
        got += ch;
        return true;
    }
    int_type overflow(int_type ch) override { return take(static_cast<char>(ch)) ? ch : traits_type::eof(); }
    std::streamsize xsputn(const char* s, std::streamsize n) override
    {
        for(std::streamsize i = 0; i < n; ++i) if(!take(s[i])) return i;
        return n;
    }
};
void run_cxx_stream(Case& c, bool faults)
{
    auto& r = c.rng;
    rec_buf b;
    std::ostream os(&b);
    std::string expect;
    const bool exc = r.chance(1, 3);
    if(faults) { b.budget = r.chance(1, 4) ? r.range(0, 3) : r.range(0, r.chance(1, 5) ? 80000 : 120); b.kind = static_cast<int>(r.below(2)); }
    if(exc) os.exceptions(std::ios::badbit | std::ios::failbit);
    c.desc(cat("C++ stream", exc ? " with exceptions" : "", faults ? cat(" fault after ", b.budget, b.kind ? " exception" : " refused") : std::string()));
    int n = 1 + static_cast<int>(r.below(8));
    std::uint64_t sig = 0;
    for(int k = 0; k < n; ++k)
    {
        // what the user did to the stream must not matter
        if(r.chance(1, 3)) { os << std::hex << std::showbase << std::uppercase << std::boolalpha << std::setprecision(3) << std::scientific << std::left; c.more(" flags"); }
        if(r.chance(1, 4)) { os << std::setfill('#') << std::setw(static_cast<int>(r.range(1, 30))); c.more(" setw"); c.count("with_width"); }
        job j = make_job(r);
        auto op = r.below(5);
        std::string want = op == 4 ? "\n" : j.want + (op % 2 ? "\n" : "");
        bool error = op == 4 ? false : j.error;
        c.more(cat("\n", op == 4 ? "println()" : op % 2 ? "println " : "print ", op == 4 ? std::string() : j.show()));
        std::string what;
        const std::string was = b.got;
        outcome o = attempt([&]
        {
            if(op == 4) papilio::println(os);
            else with_args(j, [&](std::string_view fmt, const auto&... a) { if(op % 2) papilio::println(os, fmt, a...); else papilio::print(os, fmt, a...); });
        }, what);
        sig = mix64(sig ^ hash_str(j.fmt));
        if(error)
        {
            CK(o == format_failed, "an error in the format is not reported", j.show());
            CK(b.got == was, "something was written although formatting failed", vh::show(std::string_view(b.got).substr(was.size())));
            c.count("cxx_formatting_failed");
            continue;
        }
        if(b.faulted)
        {
            CK(!os.good(), "a failed write leaves the stream good", "");
            if(exc) CK(o != ok, "a failed write is not reported though exceptions are enabled", "");
            CK((expect + want).substr(0, b.got.size()) == b.got, "the bytes before the fault", "");
            c.count("cxx_write_faults");
            // a failed stream takes nothing more
            auto now = b.got;
            b.budget = -1;
            (void)attempt([&] { papilio::print(os, "{}", 1); }, what);
            CK(b.got == now, "a stream that failed takes more output", "");
            os.exceptions(std::ios::goodbit);
            os.clear();
            os.width(0);
            (void)attempt([&] { papilio::print(os, "{}!", 7); }, what);
            CK(b.got == now + "7!", "printing after a fault", "");
            break;
        }
        expect += want;
        CK(o == ok && os.good(), "success is reported as a failure", what);
        CK(b.got == expect, "bytes", "got ", vh::show(std::string_view(b.got).substr(was.size(), 300)), " want ", vh::show(std::string_view(expect).substr(std::min(was.size(), expect.size()), 300)));
        c.count("cxx_prints");
        if(!faults && r.chance(1, 4)) { os.width(0); os.write("own", 3); expect += "own"; }
    }
    c.nontrivial(sig);
}

struct fd_reader
{
    std::string got;
    std::thread t;
    fd_reader(int fd, unsigned delay) : t([this, fd, delay]
    {
        char b[700];
        for(;;)
        {
            ssize_t n = ::read(fd, b, 1 + static_cast<size_t>(delay) % sizeof b);
            if(n < 0 && errno == EINTR) continue;
            if(n <= 0) break;
            got.append(b, static_cast<size_t>(n));
        }
    }) {}
};
// real devices
void run_device(Case& c)
{
    auto& r = c.rng;
    static const bool ignored = (std::signal(SIGPIPE, SIG_IGN), true);
    (void)ignored;
    const int kind = static_cast<int>(c.index % 8);
    static const char* names[] = {"memory file", "pipe", "full device", "closed pipe", "memory stream", "fixed memory", "terminal", "full pipe"};
    c.desc(names[kind]);
    std::deque<job> jobs;
    std::string expect;
    int n = 1 + static_cast<int>(r.below(6));
    while(static_cast<int>(jobs.size()) < n) { job j = make_job(r); if(j.error) continue; if(kind == 6 && (j.want.size() > 300 || j.want.find_first_of("\n\r\t\x7f\x03\x04\x11\x13") != std::string::npos)) continue; jobs.push_back(j); }
    std::vector<bool> line;
    for(auto& j : jobs) { line.push_back(r.coin()); c.more(cat("\n", j.show())); }
    auto print_all = [&](std::FILE* f, std::size_t& done, std::string& what)
    {
        done = 0;
        return attempt([&]
        {
            for(std::size_t i = 0; i < jobs.size(); ++i)
            {
                with_args(jobs[i], [&](std::string_view fmt, const auto&... a) { if(line[i]) papilio::println(f, fmt, a...); else papilio::print(f, fmt, a...); });
                ++done;
            }
        }, what);
    };
    for(std::size_t i = 0; i < jobs.size(); ++i) expect += jobs[i].want + (line[i] ? "\n" : "");
    std::size_t done = 0;
    std::string what;
    auto modes = [&](std::FILE* f, std::vector<char>& b)
    {
        auto m = r.below(4);
        if(m == 0) std::setvbuf(f, nullptr, _IONBF, 0);
        else if(m == 1) std::setvbuf(f, b.data(), _IOFBF, b.size());
        else if(m == 2) std::setvbuf(f, b.data(), _IOLBF, b.size());
    };
    std::vector<char> buf(1 + r.below(5000));
    c.count(cat("device_", names[kind]).c_str());
    switch(kind)
    {
    case 0:
    {
        int fd = memfd_create("c16", 0);
        std::FILE* f = fdopen(fd, "w+");
        modes(f, buf);
        outcome o = print_all(f, done, what);
        CK(o == ok, "printing failed", what);
        // without flushing or closing: everything is there
        std::string got(expect.size() + 100, '\0');
        ssize_t m = pread(fd, got.data(), got.size(), 0);
        got.resize(m < 0 ? 0 : static_cast<size_t>(m));
        CK(got == expect, "bytes in the file", got.size(), " want ", expect.size());
        std::fclose(f);
        break;
    }
    case 1:
    {
        int p[2];
        if(pipe(p)) return;
        fcntl(p[1], F_SETPIPE_SZ, 4096);
        std::FILE* f = fdopen(p[1], "w");
        modes(f, buf);
        fd_reader rd(p[0], static_cast<unsigned>(r.next() & 0xffff));
        outcome o = print_all(f, done, what);
        std::fclose(f);
        rd.t.join();
        close(p[0]);
        CK(o == ok, "printing failed", what);
        CK(rd.got == expect, "bytes through the pipe", rd.got.size(), " want ", expect.size());
        break;
    }
    case 2:
    {
        std::FILE* f = std::fopen("/dev/full", "w");
        if(!f) return;
        modes(f, buf);
        outcome o = print_all(f, done, what);
        bool any = false;
        for(std::size_t i = 0; i < jobs.size(); ++i) any = any || !jobs[i].want.empty() || line[i];
        CK(o == (any ? io_failed : ok), "writing to a full device is reported as success", what, " after ", done);
        if(o == io_failed)
        {
            bool clean = true;
            for(std::size_t i = 0; i < done; ++i) clean = clean && jobs[i].want.empty() && !line[i];
            CK(clean, "a failed write is reported late", done);
        }
        std::fclose(f);
        break;
    }
    case 3:
    {
        int p[2];
        if(pipe(p)) return;
        close(p[0]);
        std::FILE* f = fdopen(p[1], "w");
        modes(f, buf);
        outcome o = print_all(f, done, what);
        CK(expect.empty() ? o == ok : o == io_failed, "writing to a closed pipe is reported as success", what);
        std::fclose(f);
        break;
    }
    case 4:
    {
        char* mem = nullptr;
        size_t len = 0;
        std::FILE* f = open_memstream(&mem, &len);
        outcome o = print_all(f, done, what);
        CK(o == ok && std::string_view(mem, len) == expect, "bytes in memory", what, " ", len, " want ", expect.size());
        std::fclose(f);
        std::free(mem);
        break;
    }
    case 5:
    {
        std::size_t cap = 2 + r.below(400);
        std::vector<char> mem(cap, '~');
        std::FILE* f = fmemopen(mem.data(), cap, "w");
        std::setvbuf(f, nullptr, _IONBF, 0);
        outcome o = print_all(f, done, what);
        std::fclose(f);
        std::size_t fit = 0;
        for(std::size_t i = 0; i < done; ++i) fit += jobs[i].want.size() + line[i];
        CK(fit <= cap, "more bytes are reported as printed than there is room for", fit, " of ", cap);
        fit = std::min(fit, cap - 1); // the last byte is for a terminator
        CK(std::string_view(mem.data(), fit) == std::string_view(expect).substr(0, fit), "bytes in fixed memory", "");
        CK(expect.size() < cap ? o == ok : expect.size() > cap ? o == io_failed : true, "outcome for fixed memory", what, " ", expect.size(), " of ", cap);
        break;
    }
    case 6:
    {
        int m = posix_openpt(O_RDWR | O_NOCTTY);
        if(m < 0 || grantpt(m) || unlockpt(m)) { if(m >= 0) close(m); c.count("no_terminal"); return; }
        char name[128];
        if(ptsname_r(m, name, sizeof name)) { close(m); c.count("no_terminal"); return; }
        int sl = open(name, O_RDWR | O_NOCTTY);
        if(sl < 0) { close(m); c.count("no_terminal"); return; }
        termios t;
        tcgetattr(sl, &t);
        cfmakeraw(&t);
        tcsetattr(sl, TCSANOW, &t);
        std::FILE* f = fdopen(sl, "w");
        modes(f, buf);
        CK(papilio::os::is_terminal(f), "a terminal is not recognised", "");
        outcome o = print_all(f, done, what);
        CK(o == ok, "printing to a terminal failed", what);
        std::string got;
        while(got.size() < expect.size())
        {
            pollfd p{m, POLLIN, 0};
            if(poll(&p, 1, 5000) <= 0) break;
            char b[512];
            ssize_t k = ::read(m, b, sizeof b);
            if(k <= 0) break;
            got.append(b, static_cast<size_t>(k));
        }
        CK(got == expect, "bytes at the terminal", vh::show(std::string_view(got)), " want ", vh::show(std::string_view(expect)));
        c.count("terminals");
        std::fclose(f);
        close(m);
        break;
    }
    default:
    {
        int p[2];
        if(pipe2(p, O_NONBLOCK)) return;
        int size = fcntl(p[1], F_SETPIPE_SZ, 4096);
        std::FILE* f = fdopen(p[1], "w");
        modes(f, buf);
        outcome o = print_all(f, done, what);
        std::size_t fit = 0;
        for(std::size_t i = 0; i < done; ++i) fit += jobs[i].want.size() + line[i];
        std::string got(200000, '\0');
        std::size_t have = 0;
        for(ssize_t k; (k = ::read(p[0], got.data() + have, got.size() - have)) > 0;) have += static_cast<size_t>(k);
        got.resize(have);
        CK(have >= fit && std::string_view(got).substr(0, fit) == std::string_view(expect).substr(0, fit), "a print reported as done did not arrive", have, " of ", fit);
        CK(expect.substr(0, have) == got, "bytes in the pipe", "");
        if(static_cast<int>(expect.size()) > size) { CK(o == io_failed, "a full pipe is reported as success", what); c.count("pipe_overflows"); }
        std::fclose(f);
        close(p[0]);
        break;
    }
    }
    std::uint64_t sig = static_cast<std::uint64_t>(kind);
    for(auto& j : jobs) sig = mix64(sig ^ hash_str(j.fmt));
    c.nontrivial(sig);
}
} // namespace

VH_STREAM(c_streams, 9000, 1000000) { run_c_stream(c, false); }
VH_STREAM(c_faults, 9000, 1000000) { run_c_stream(c, true); }
VH_STREAM(cxx_streams, 9000, 1000000) { run_cxx_stream(c, false); }
VH_STREAM(cxx_faults, 9000, 1000000) { run_cxx_stream(c, true); }
VH_STREAM(devices, 4000, 400000) { run_device(c); }
