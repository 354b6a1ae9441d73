#include "vh.hpp"
#include <atomic>
#include <cstdlib>
#include <new>
#include <exception>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <map>

#ifndef VH_NO_LOCALE
#include <clocale>
#endif

namespace vh
{
namespace
{
    struct stream_info
    {
        std::string name;
        std::uint64_t nq, nt;
        case_fn fn;
    };

    std::vector<stream_info>& streams()
    {
        static std::vector<stream_info> s;
        return s;
    }

    struct page
    {
        volatile std::uint64_t seq;     // progress counter
        volatile std::uint64_t index;
        volatile std::uint32_t done;
        volatile std::uint32_t len;
        char stream[64];
        char text[32768];
    };

    page* g_page = nullptr;
    bool g_thorough = false;
    std::uint64_t g_seed = 1;
    std::uint64_t g_evals = 0;
    std::uint64_t g_cases = 0;
    int g_fail_count = 0;
    std::unordered_set<std::uint64_t>& sigs()
    {
        static std::unordered_set<std::uint64_t> s;
        return s;
    }
    std::map<std::string, std::uint64_t>& counters()
    {
        static std::map<std::string, std::uint64_t> s;
        return s;
    }
    std::vector<std::pair<std::string, std::string>>& samples()
    {
        static std::vector<std::pair<std::string, std::string>> s;
        return s;
    }
    FILE* g_out = nullptr;

    std::string json_escape(std::string_view s)
    {
        std::string r;
        for(unsigned char ch : s)
        {
            if(ch == '"' || ch == '\\')
            {
                r += '\\';
                r += static_cast<char>(ch);
            }
            else if(ch < 0x20 || ch >= 0x7f)
            {
                char b[8];
                std::snprintf(b, sizeof b, "\\u%04x", ch);
                r += b;
            }
            else
                r += static_cast<char>(ch);
        }
        return r;
    }
} // namespace

bool thorough() { return g_thorough; }
std::uint64_t seed() { return g_seed; }

Stream::Stream(const char* name, std::uint64_t nq, std::uint64_t nt, case_fn fn)
{
    streams().push_back({name, nq, nt, fn});
}

void Case::desc(std::string_view s)
{
    std::uint32_t n = static_cast<std::uint32_t>(s.size() < sizeof(g_page->text) ? s.size() : sizeof(g_page->text));
    std::memcpy(g_page->text, s.data(), n);
    g_page->len = n;
    g_page->seq = g_page->seq + 1;
}

void Case::more(std::string_view s)
{
    std::uint32_t at = g_page->len;
    std::size_t room = sizeof(g_page->text) - at;
    std::uint32_t n = static_cast<std::uint32_t>(s.size() < room ? s.size() : room);
    std::memcpy(g_page->text + at, s.data(), n);
    g_page->len = at + n;
    g_page->seq = g_page->seq + 1;
}

void Case::fail(std::string_view key, std::string_view detail)
{
    failed = true;
    ++g_fail_count;
    if(g_fail_count > 200)
        return;
    std::string d(detail);
    if(d.size() > 6000)
        d.resize(6000);
    std::string ctx(g_page->text, g_page->len);
    if(ctx.size() > 4000)
        ctx.resize(4000);
    std::fprintf(
        g_out,
        "{\"t\":\"fail\",\"stream\":\"%s\",\"idx\":%llu,\"key\":\"%s\",\"detail\":\"%s\",\"case\":\"%s\"}\n",
        stream,
        static_cast<unsigned long long>(index),
        json_escape(key).c_str(),
        json_escape(d).c_str(),
        json_escape(ctx).c_str()
    );
    std::fflush(g_out);
}

void Case::nontrivial(std::string_view sig) { nontrivial(hash_str(sig)); }

void Case::nontrivial(std::uint64_t sig)
{
    if(sigs().size() < 4000000)
        sigs().insert(mix64(sig ^ hash_str(stream)));
}

void Case::count(const char* what, std::uint64_t n) { counters()[what] += n; }
void Case::eval(std::uint64_t n) { g_evals += n; }

void Case::sample(std::string_view s)
{
    int have = 0;
    for(auto& i : samples())
        have += i.first == stream;
    if(have < 2)
        samples().emplace_back(stream, std::string(s.substr(0, 600)));
}

std::string show(std::string_view s)
{
    std::string r = "\"";
    for(unsigned char ch : s)
    {
        if(ch == '"' || ch == '\\')
        {
            r += '\\';
            r += static_cast<char>(ch);
        }
        else if(ch < 0x20 || ch >= 0x7f)
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\x%02x", ch);
            r += b;
        }
        else
            r += static_cast<char>(ch);
    }
    return r + "\"";
}

template <typename V>
static std::string show_units(V s, const char* prefix)
{
    std::string r = prefix;
    r += '"';
    for(auto u : s)
    {
        unsigned long ch = static_cast<unsigned long>(u);
        if(ch == '"' || ch == '\\')
        {
            r += '\\';
            r += static_cast<char>(ch);
        }
        else if(ch < 0x20 || ch >= 0x7f)
        {
            char b[24];
            std::snprintf(b, sizeof b, "\\{%lx}", ch);
            r += b;
        }
        else
            r += static_cast<char>(ch);
    }
    return r + "\"";
}
std::string show(std::u32string_view s) { return show_units(s, "U"); }
std::string show(std::u16string_view s) { return show_units(s, "u"); }
std::string show(std::wstring_view s) { return show_units(s, "L"); }
std::string show(std::u8string_view s)
{
    return "u8" + show(std::string_view(reinterpret_cast<const char*>(s.data()), s.size()));
}

// --- allocation monitor ---
static std::atomic<std::uint64_t> g_allocs{0};
static std::atomic<std::uint64_t> g_fail_at{0};
static std::atomic<std::int64_t> g_live{0};
static std::atomic<bool> g_fired{false};
static std::atomic<std::size_t> g_limit{~std::size_t(0)};

void AllocGuard::fail_at(std::uint64_t n)
{
    g_allocs = 0;
    g_fired = false;
    g_fail_at = n;
}
void AllocGuard::limit(std::size_t bytes) { g_limit = bytes; }
std::uint64_t AllocGuard::allocs() { return g_allocs; }
std::int64_t AllocGuard::live() { return g_live; }
bool AllocGuard::fired() { return g_fired; }
} // namespace vh

#ifdef VH_ALLOC_MONITOR
static void* vh_new(std::size_t n)
{
    std::uint64_t k = vh::g_allocs.fetch_add(1) + 1;
    if(std::uint64_t f = vh::g_fail_at.load(); f && k == f)
    {
        vh::g_fired = true;
        throw std::bad_alloc();
    }
    if(n > vh::g_limit.load())
        throw std::bad_alloc();
    void* p = std::malloc(n ? n : 1);
    if(!p)
        throw std::bad_alloc();
    vh::g_live.fetch_add(1);
    return p;
}
static void vh_delete(void* p) noexcept
{
    if(!p)
        return;
    vh::g_live.fetch_sub(1);
    std::free(p);
}
void* operator new(std::size_t n) { return vh_new(n); }
void* operator new[](std::size_t n) { return vh_new(n); }
void operator delete(void* p) noexcept { vh_delete(p); }
void operator delete[](void* p) noexcept { vh_delete(p); }
void operator delete(void* p, std::size_t) noexcept { vh_delete(p); }
void operator delete[](void* p, std::size_t) noexcept { vh_delete(p); }
#endif

// usage: harness --out FILE --page FILE --hashes FILE --tier T --seed N --shard i/n [--only stream:idx] [--from stream:idx] [--list]
int main(int argc, char** argv)
{
    using namespace vh;
    std::string out = "/dev/null", pagef, hashes, only, from;
    std::uint64_t shard = 0, nshard = 1, cap = 0;
    double scale = 1;
    for(int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if(a == "--out") out = val();
        else if(a == "--page") pagef = val();
        else if(a == "--hashes") hashes = val();
        else if(a == "--tier") g_thorough = val() == "thorough";
        else if(a == "--seed") g_seed = std::strtoull(val().c_str(), nullptr, 10);
        else if(a == "--shard")
        {
            std::string v = val();
            std::sscanf(v.c_str(), "%lu/%lu", &shard, &nshard);
        }
        else if(a == "--only") only = val();
        else if(a == "--from") from = val();
        else if(a == "--scale") scale = std::strtod(val().c_str(), nullptr);
        else if(a == "--cap") cap = std::strtoull(val().c_str(), nullptr, 10);
    }
    g_out = std::fopen(out.c_str(), "a");
    if(!g_out)
    {
        std::perror("out");
        return 3;
    }
    if(pagef.empty())
    {
        g_page = static_cast<page*>(mmap(nullptr, sizeof(page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    }
    else
    {
        int fd = open(pagef.c_str(), O_RDWR | O_CREAT, 0600);
        if(fd < 0 || ftruncate(fd, sizeof(page)) != 0)
        {
            std::perror("page");
            return 3;
        }
        g_page = static_cast<page*>(mmap(nullptr, sizeof(page), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        close(fd);
    }
    if(g_page == MAP_FAILED)
        return 3;

    std::string only_s, from_s;
    std::uint64_t only_i = 0, from_i = 0;
    auto split = [](const std::string& v, std::string& s, std::uint64_t& i)
    {
        auto p = v.find(':');
        s = v.substr(0, p);
        i = p == v.npos ? 0 : std::strtoull(v.c_str() + p + 1, nullptr, 10);
    };
    if(!only.empty()) split(only, only_s, only_i);
    if(!from.empty()) split(from, from_s, from_i);

    bool started = from.empty();
    for(auto& s : streams())
    {
        std::uint64_t n = g_thorough ? s.nt : s.nq;
        if(scale != 1) n = static_cast<std::uint64_t>(static_cast<double>(n) * scale) + 1;
        if(cap && n > cap) n = cap;
        std::uint64_t i0 = 0;
        if(!only.empty())
        {
            if(s.name != only_s) continue;
            i0 = only_i;
            n = only_i + 1;
        }
        else if(!started)
        {
            if(s.name != from_s) continue;
            started = true;
            i0 = from_i;
        }
        std::snprintf(g_page->stream, sizeof g_page->stream, "%s", s.name.c_str());
        std::uint64_t ran = 0;
        for(std::uint64_t i = i0; i < n; ++i)
        {
            if(only.empty() && i % nshard != shard) continue;
            g_page->index = i;
            g_page->len = 0;
            g_page->seq = g_page->seq + 1;
            Case c{Rng(mix64(g_seed * 0x51ed2701u) ^ hash_str(s.name) ^ mix64(i + 77)), s.name.c_str(), i};
            ++g_cases;
            ++ran;
            try
            {
                s.fn(c);
            }
            catch(const std::exception& e)
            {
                c.fail(cat(s.name, "/unexpected-exception"), cat("uncaught exception escaped: ", e.what()));
            }
            catch(...)
            {
                c.fail(cat(s.name, "/unexpected-exception"), "uncaught non-std exception");
            }
            AllocGuard::fail_at(0);
            if(!only.empty())
                std::fprintf(stderr, "case %s:%llu: %s\n%s\n", s.name.c_str(), (unsigned long long)i, c.failed ? "FAILED" : "ok", std::string(g_page->text, g_page->len).c_str());
            if(g_fail_count > 400)
                break;
        }
        counters()["cases_" + s.name] += ran;
        if(g_fail_count > 400)
            break;
    }
    for(auto& [k, v] : counters())
        std::fprintf(g_out, "{\"t\":\"count\",\"k\":\"%s\",\"v\":%llu}\n", json_escape(k).c_str(), static_cast<unsigned long long>(v));
    for(auto& [k, v] : samples())
        std::fprintf(g_out, "{\"t\":\"sample\",\"stream\":\"%s\",\"s\":\"%s\"}\n", k.c_str(), json_escape(v).c_str());
    std::fprintf(g_out, "{\"t\":\"end\",\"evals\":%llu,\"cases\":%llu}\n", static_cast<unsigned long long>(g_evals), static_cast<unsigned long long>(g_cases));
    std::fclose(g_out);
    if(!hashes.empty())
    {
        if(FILE* h = std::fopen(hashes.c_str(), "ab"))
        {
            for(std::uint64_t v : sigs())
                std::fwrite(&v, 8, 1, h);
            std::fclose(h);
        }
    }
    g_page->done = 1;
    std::fflush(nullptr);
    // static containers of the harness are reachable: leak checking still runs at exit
    return 0;
}
