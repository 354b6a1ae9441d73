#include "hist.hpp"
#include <csetjmp>
#include <csignal>
#include <sys/mman.h>
#include <unistd.h>

// Owned text and text known to be followed by a terminator
VH_STREAM(terminated, 4000, 100000)
{
    px::with_char(static_cast<int>(c.rng.below(5)), [&](auto t)
    {
        using C = decltype(t);
        using S = u::basic_string_container<C>;
        U32 v = px::any_text(c.rng, 24);
        auto e = ref::enc<C>(v);
        c.desc(cat(sizeof(C), "-byte null_terminated ", show(v)));
        S own(papilio::independent, e);
        CK(own.null_terminated(), "owned text", "");
        S borrow(std::as_const(e));
        CK(borrow.null_terminated() && !borrow.has_ownership(), "text of a string", "");
        // a part that is followed by more
        if(v.size() > 1)
        {
            U32 part = v.substr(0, 1 + c.rng.below(v.size() - 1));
            S p(std::basic_string_view<C>(e).substr(0, ref::enc<C>(part).size()));
            bool nul = e[ref::enc<C>(part).size()] == C();
            CK(p.null_terminated() == nul, "part of a string", "");
            const C* z = p.c_str();
            CK(std::basic_string_view<C>(z, ref::enc<C>(part).size()) == ref::enc<C>(part) && z[ref::enc<C>(part).size()] == C() && p.null_terminated(), "c_str", "");
            c.count("parts");
        }
        c.nontrivial(cat(sizeof(C), show(v)));
    });
}

static sigjmp_buf where;
static void on_segv(int) { siglongjmp(where, 1); }

// Text at the very end of the accessible memory
VH_STREAM(null_terminated, 1, 1)
{
    c.desc("null_terminated() of a borrowing container whose characters end where the accessible memory ends");
    std::size_t page = static_cast<std::size_t>(sysconf(_SC_PAGESIZE));
    char* m = static_cast<char*>(mmap(nullptr, 2 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    mprotect(m + page, page, PROT_NONE);
    std::memset(m, 'x', page);
    struct sigaction sa{}, old{};
    sa.sa_handler = on_segv;
    sigaction(SIGSEGV, &sa, &old);
    volatile bool outside = false;
    {
        u::string_container s(std::string_view(m + page - 5, 5));
        if(sigsetjmp(where, 1) == 0)
        {
            volatile bool b = s.null_terminated();
            (void)b;
        }
        else outside = true;
    }
    sigaction(SIGSEGV, &old, nullptr);
    munmap(m, 2 * page);
    c.check(!outside, "null_terminated-reads-behind-the-text", "null_terminated() read the unit behind the borrowed text");
    c.count("at_end_of_memory");
}
