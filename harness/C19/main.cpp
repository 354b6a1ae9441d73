#include "c19.hpp"
namespace c19
{
template <> bool together_any<char>(Case&, bool);
template <> bool together_any<wchar_t>(Case&, bool);
template <> bool together_any<char8_t>(Case&, bool);
template <> bool together_any<char16_t>(Case&, bool);
static bool any(Case& c, bool in_child)
{
    switch(c.rng.below(5))
    {
    case 0: c.desc("wchar_t"); return together_any<wchar_t>(c, in_child);
    case 1: c.desc("char8_t"); return together_any<char8_t>(c, in_child);
    case 2: c.desc("char16_t"); return together_any<char16_t>(c, in_child);
    default: c.desc("char"); return together_any<char>(c, in_child);
    }
}

// Threads print lines of any length to one stream
static void printing(Case& c)
{
    Rng& r = c.rng;
    std::FILE* f = std::tmpfile();
    if(!f) return c.fail("no-temporary-file", "");
    const int mode = r.pick({_IOFBF, _IOLBF, _IONBF});
    const std::size_t size = r.pick<std::size_t>({16, 128, 1024, 4096});
    std::setvbuf(f, nullptr, mode, size);
    const std::size_t threads = static_cast<std::size_t>(r.range(2, 5));
    std::vector<std::vector<std::string>> lines(threads);
    for(std::size_t t = 0; t < threads; ++t)
        for(std::size_t k = static_cast<std::size_t>(r.range(3, 15)); k > 0; --k)
        {
            std::size_t len = r.chance(1, 6) ? static_cast<std::size_t>(r.range(1000, 9000)) : r.below(200);
            lines[t].push_back(std::to_string(t) + ":" + std::to_string(lines[t].size()) + ":" + std::string(len, static_cast<char>('a' + t)));
        }
    c.desc(cat("print to a stream, mode ", mode, " buffer ", size, " threads ", threads));
    std::vector<std::uint64_t> seeds;
    for(std::size_t i = 0; i < threads; ++i) seeds.push_back(r.next());
    std::barrier start(static_cast<std::ptrdiff_t>(threads));
    std::vector<std::thread> pool;
    for(std::size_t i = 0; i < threads; ++i)
        pool.emplace_back([&, i]
        {
            Rng mine(seeds[i]);
            start.arrive_and_wait();
            for(auto& l : lines[i])
            {
                pause{mine}();
                switch(mine.below(3))
                {
                case 0: papilio::println(f, "{}", l); break;
                case 1: papilio::print(f, "{}\n", l); break;
                default: papilio::print(f, "{0[:2]}{0[2:]}{1}", l, '\n'); break;
                }
            }
        });
    for(auto& t : pool) t.join();
    std::fflush(f);
    std::string all(static_cast<std::size_t>(std::ftell(f)), '\0');
    std::rewind(f);
    all.resize(std::fread(all.data(), 1, all.size(), f));
    std::fclose(f);
    std::vector<std::size_t> next(threads);
    std::istringstream in(all);
    std::string line;
    std::size_t turns = 0, last = threads, n = 0;
    bool whole = true;
    while(std::getline(in, line))
    {
        std::size_t t = line.empty() ? threads : static_cast<std::size_t>(line[0] - '0');
        if(t >= threads || next[t] >= lines[t].size() || lines[t][next[t]] != line)
        {
            c.fail("line-broken", cat("line ", n, ": ", show(line.substr(0, 200))));
            whole = false;
            break;
        }
        ++next[t];
        ++n;
        turns += t != last;
        last = t;
    }
    if(whole)
        for(std::size_t t = 0; t < threads; ++t)
            c.check(next[t] == lines[t].size(), "line-lost", [&] { return cat("thread ", t, " printed ", lines[t].size(), " lines, found ", next[t]); });
    c.count("lines_printed", n);
    c.count("turns_between_threads", turns);
    c.nontrivial(cat("print", mode, size, n, turns, seeds[0]));
}
} // namespace c19

// in a new process each: nothing was used before the threads start
VH_STREAM(first_use, 800, 30000)
{
    std::fflush(nullptr);
    pid_t pid = fork();
    if(pid == 0)
    {
        bool ok = false;
        try { ok = c19::any(c, true); }
        catch(...) { _exit(3); }
        _exit(ok ? 0 : 4);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    c.check(WIFEXITED(st) && WEXITSTATUS(st) != 77, "first-use-race", [&] { return cat("the child ended with status ", st, " (see the report of the sanitizer)"); });
    c.check(!WIFEXITED(st) || WEXITSTATUS(st) != 4, "first-use-differs", "text differs from the text alone");
    c.check(!WIFEXITED(st) || WEXITSTATUS(st) != 3, "first-use-exception", "an exception escaped");
    c.count("new_processes");
    c.nontrivial(cat("first", c.index, c.rng.next()));
}
VH_STREAM(formatting, 24000, 600000) { c19::any(c, false); }
VH_STREAM(printing, 4000, 100000) { c19::printing(c); }
