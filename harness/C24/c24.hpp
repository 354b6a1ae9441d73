#pragma once
// C24: adapters between iterators, streams, ranges and tuples hand over every element once, in order.
#include <algorithm>
#include <array>
#include <deque>
#include <forward_list>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <ranges>
#include <set>
#include <span>
#include <sstream>
#include <streambuf>
#include <string>
#include <tuple>
#include <vector>
#include <papilio/papilio.hpp>
#include "vh.hpp"
using namespace vh;
#define CK(cond, key, ...) c.check((cond), key, [&] { return cat(__VA_ARGS__); })

namespace c24
{
struct boom : std::runtime_error { boom() : std::runtime_error("boom") {} };

template <typename C>
std::basic_string<C> any_text(Rng& r, std::size_t n)
{
    std::basic_string<C> s;
    for(std::size_t i = 0; i < n; ++i)
    {
        switch(r.below(6))
        {
        case 0: s += static_cast<C>(r.pick({'\n', ' ', '\t', ','})); break;
        case 1: s += static_cast<C>('0' + r.below(10)); break;
        case 2: s += static_cast<C>(r.below(256)); break; // any unit, also the last one
        case 3:
            if constexpr(sizeof(C) > 1) s += static_cast<C>(r.pick({0xD800, 0x4E2D, 0x10FFFF, 0x7FFFFFFF}));
            else s += r.pick({'\xff', '\0', '\x80', '-'});
            break;
        default: s += static_cast<C>('a' + r.below(26)); break;
        }
    }
    return s;
}
template <typename C>
std::basic_string<C> widen(std::string_view s) { return std::basic_string<C>(s.begin(), s.end()); }
template <typename C>
std::string shown(const std::basic_string<C>& s) { return show(std::basic_string_view<C>(s)); }

// ---- streams over output iterators

// the place characters are written to; the k-th write throws
template <typename C>
struct sink_state
{
    std::basic_string<C> text;
    long left = -1;
    std::size_t advanced = 0;
    void put(C ch)
    {
        if(left == 0) { left = -1; throw boom(); }
        if(left > 0) --left;
        text += ch;
    }
};
template <typename C>
class sink_it
{
public:
    using difference_type = std::ptrdiff_t;
    struct ref
    {
        sink_state<C>* st;
        void operator=(C ch) const { st->put(ch); }
    };
    sink_it() = default;
    explicit sink_it(sink_state<C>& st) : m(&st) {}
    ref operator*() const { return {m}; }
    sink_it& operator++() { ++m->advanced; return *this; }
    sink_it operator++(int) { sink_it t = *this; ++*this; return t; }
    sink_state<C>* m = nullptr;
};
template <typename C>
class ref_buf : public std::basic_streambuf<C>
{
public:
    explicit ref_buf(sink_state<C>& st) : m(&st) {}

protected:
    using base = std::basic_streambuf<C>;
    typename base::int_type overflow(typename base::int_type ch) override
    {
        m->put(static_cast<C>(ch));
        return ch;
    }

private:
    sink_state<C>* m;
};

template <typename C>
struct out_op
{
    int what = 0;
    std::basic_string<C> text;
    long long num = 0;
    int width = 0;
    C fill = C('*');
    void run(std::basic_ostream<C>& os) const
    {
        switch(what)
        {
        case 0: os.put(text.empty() ? C('!') : text[0]); break;
        case 1: os.write(text.data(), static_cast<std::streamsize>(text.size())); break;
        case 2: os << text; break;
        case 3: os << std::basic_string_view<C>(text); break;
        case 4: os << std::setw(width) << std::setfill(fill) << (num & 1 ? std::left : std::right) << text; break;
        case 5: os << num; break;
        case 6: os << std::hex << std::showbase << std::setw(width) << num << std::dec; break;
        case 7: os << static_cast<double>(num) / 8; break;
        case 8: os << std::boolalpha << (num % 2 == 0) << std::endl; break;
        case 9: os.flush(); break;
        case 10: os << (text.empty() ? C('?') : text[0]); break;
        case 11: os << static_cast<const void*>(nullptr) << std::uppercase; break;
        case 12: os.clear(); break;
        default: os << text.c_str(); break;
        }
    }
    static out_op make(Rng& r)
    {
        out_op o;
        o.what = static_cast<int>(r.below(14));
        o.text = any_text<C>(r, r.chance(1, 10) ? r.below(300) : r.below(12));
        o.num = static_cast<long long>(r.next()) >> r.below(64);
        o.width = static_cast<int>(r.below(20));
        o.fill = static_cast<C>(r.pick({'*', ' ', '0'}));
        return o;
    }
};

template <typename C>
void written(Case& c)
{
    Rng& r = c.rng;
    std::vector<out_op<C>> ops;
    std::string what;
    for(std::size_t i = 0, n = 1 + r.below(8); i < n; ++i)
    {
        ops.push_back(out_op<C>::make(r));
        what += cat(ops.back().what, "(", shown(ops.back().text), ") ");
    }
    int kind = static_cast<int>(r.below(6));
    bool faults = kind == 0 && r.coin();
    bool thrown = faults && r.coin(); // the stream passes exceptions on
    long at = faults ? static_cast<long>(r.below(30)) : -1;
    c.desc(cat("stream over output iterator ", kind, ", unit size ", sizeof(C), ", write ", at, " throws", thrown ? " through" : "", ": ", what));

    sink_state<C> want;
    want.left = at;
    ref_buf<C> rb(want);
    std::basic_ostream<C> ref(&rb);
    std::vector<std::pair<int, bool>> want_state, got_state;
    auto run = [&](std::basic_ostream<C>& os, std::vector<std::pair<int, bool>>& states)
    {
        os.imbue(std::locale::classic());
        if(thrown) os.exceptions(std::ios::badbit);
        for(auto& o : ops)
        {
            bool got = false;
            try { o.run(os); }
            catch(const boom&) { got = true; }
            catch(const std::ios_base::failure&) { got = true; }
            states.emplace_back(static_cast<int>(os.rdstate()), got);
        }
    };
    run(ref, want_state);
    std::basic_string<C> got;
    bool base_ok = true;
    std::size_t advanced = want.text.size();
    switch(kind)
    {
    case 0:
    {
        sink_state<C> st;
        st.left = at;
        papilio::basic_oiterstream<C, sink_it<C>> os{sink_it<C>(st)};
        run(os, got_state);
        got = st.text;
        advanced = st.advanced;
        base_ok = os.base().m == &st;
        break;
    }
    case 1:
    {
        papilio::basic_oiterstream<C, std::back_insert_iterator<std::basic_string<C>>> os(std::back_inserter(got));
        run(os, got_state);
        *os.base() = C('#');
        base_ok = !got.empty() && got.back() == C('#');
        got.pop_back();
        break;
    }
    case 2:
    {
        // a block which fits exactly: anything more is caught by the sanitizer
        std::unique_ptr<C[]> buf(new C[want.text.size()]);
        papilio::basic_oiterstream<C, C*> os(buf.get());
        run(os, got_state);
        base_ok = os.base() == buf.get() + want.text.size();
        got.assign(buf.get(), want.text.size());
        break;
    }
    case 3:
    {
        std::basic_ostringstream<C> through;
        papilio::basic_oiterstream<C, std::ostreambuf_iterator<C>> os{std::ostreambuf_iterator<C>(through)};
        run(os, got_state);
        got = through.str();
        base_ok = !os.base().failed();
        break;
    }
    case 4:
    {
        // the buffer under a plain stream
        sink_state<C> st;
        papilio::basic_iterbuf<C, sink_it<C>> buf(std::in_place, st);
        std::basic_ostream<C> os(&buf);
        run(os, got_state);
        got = st.text;
        advanced = st.advanced;
        base_ok = buf.base().m == &st;
        break;
    }
    default:
    {
        std::deque<C> d(want.text.size());
        papilio::basic_oiterstream<C, typename std::deque<C>::iterator> os(d.begin());
        run(os, got_state);
        base_ok = os.base() == d.end();
        got.assign(d.begin(), d.end());
        break;
    }
    }
    CK(got == want.text, "written characters", "got ", shown(got), " want ", shown(want.text));
    CK(got_state == want_state, "state of the writing stream", "");
    CK(base_ok, "position after writing", "");
    CK(advanced == want.text.size(), "output iterator not advanced once for each character", advanced, " for ", want.text.size());
    c.count("characters_written", got.size());
    if(faults) c.count("interrupted_writes");
    if(!want.text.empty()) c.nontrivial(hash_str(what, static_cast<std::uint64_t>(kind * 64 + at + 1)));
}

// ---- streams over input iterators

// a source that can be read once: it keeps count of what was read and never ends
template <typename C>
struct source_state
{
    std::basic_string<C> text;
    std::size_t pos = 0;
    std::vector<unsigned> reads;
    long left = -1;
    C now()
    {
        if(left == 0) { left = -1; throw boom(); }
        if(left > 0) --left;
        if(reads.size() <= pos) reads.resize(pos + 1);
        ++reads[pos];
        return at(pos);
    }
    C at(std::size_t i) const { return i < text.size() ? text[i] : (i - text.size()) % 3 == 0 ? C('\n') : C('q'); }
};
template <typename C>
class source_it
{
public:
    using value_type = C;
    using difference_type = std::ptrdiff_t;
    using iterator_concept = std::input_iterator_tag;
    source_it() = default;
    explicit source_it(source_state<C>& st) : m(&st) {}
    C operator*() const { return m->now(); }
    source_it& operator++() { ++m->pos; return *this; }
    void operator++(int) { ++m->pos; }
    source_state<C>* m = nullptr;
};
template <typename C>
class ref_source : public std::basic_streambuf<C>
{
public:
    explicit ref_source(source_state<C>& st) : m(&st) {}

protected:
    using base = std::basic_streambuf<C>;
    typename base::int_type underflow() override
    {
        m_ch = m->now();
        ++m->pos;
        this->setg(&m_ch, &m_ch, &m_ch + 1);
        return base::traits_type::to_int_type(m_ch);
    }

private:
    source_state<C>* m;
    C m_ch{};
};
struct in_op
{
    int what = 0;
    std::size_t n = 0;
    char32_t delim = 0;
    // what came out, as text
    template <typename C>
    std::string run(std::basic_istream<C>& is) const
    {
        using T = std::char_traits<C>;
        C buf[40];
        std::string got;
        auto units = [&](const C* p, std::size_t k) { got += cat(k, ":", shown(std::basic_string<C>(p, k))); };
        switch(what)
        {
        case 0: { auto ch = is.get(); got = T::eq_int_type(ch, T::eof()) ? "eof" : cat(static_cast<long long>(ch)); break; }
        case 1: { auto ch = is.peek(); got = T::eq_int_type(ch, T::eof()) ? "eof" : cat(static_cast<long long>(ch)); break; }
        case 2: is.read(buf, static_cast<std::streamsize>(n)); units(buf, static_cast<std::size_t>(is.gcount())); break;
        case 3: is.getline(buf, static_cast<std::streamsize>(n) + 1); units(buf, T::length(buf)); got += cat(" ", is.gcount()); break;
        case 4: is.getline(buf, static_cast<std::streamsize>(n) + 1, static_cast<C>(delim)); units(buf, T::length(buf)); got += cat(" ", is.gcount()); break;
        case 5: { int v = -1; is >> v; got = cat(v); break; }
        case 6: { std::basic_string<C> s; is >> s; units(s.data(), s.size()); break; }
        case 7: is.ignore(static_cast<std::streamsize>(n)); got = cat(is.gcount()); break;
        case 8: is.ignore(static_cast<std::streamsize>(n), static_cast<typename T::int_type>(delim)); got = cat(is.gcount()); break;
        case 9: { std::basic_string<C> s; std::getline(is, s); units(s.data(), s.size()); break; }
        case 10: { double v = -1; is >> v; got = cat(v); break; }
        case 11:
            if(is.rdbuf())
            {
                std::istreambuf_iterator<C> it(is);
                std::basic_string<C> s;
                for(std::size_t i = 0; i < n; ++i, ++it) s += *it;
                units(s.data(), s.size());
            }
            break;
        case 12: { C ch{}; is >> ch; got = cat(static_cast<long long>(ch)); break; }
        default: is.clear(); break;
        }
        return cat(got, " state ", static_cast<int>(is.rdstate()));
    }
    static in_op make(Rng& r)
    {
        in_op o;
        o.what = static_cast<int>(r.below(14));
        o.n = r.below(r.coin() ? 4 : 36);
        o.delim = r.pick({U'a', U'5', U',', U'\n'});
        return o;
    }
};
template <typename C>
void read(Case& c)
{
    Rng& r = c.rng;
    source_state<C> want;
    want.text = any_text<C>(r, r.below(60));
    std::vector<in_op> ops;
    std::string what;
    for(std::size_t i = 0, n = 1 + r.below(8); i < n; ++i)
    {
        ops.push_back(in_op::make(r));
        what += cat(ops.back().what, ":", ops.back().n, " ");
    }
    int kind = static_cast<int>(r.below(5));
    bool faults = kind == 0 && r.chance(1, 3);
    bool thrown = faults && r.coin();
    want.left = faults ? static_cast<long>(r.below(30)) : -1;
    c.desc(cat("stream over input iterator ", kind, ", unit size ", sizeof(C), ", read ", want.left, " throws", thrown ? " through" : "", ": ", what, " of ", shown(want.text)));
    source_state<C> mine = want;
    auto run = [&](std::basic_istream<C>& is)
    {
        std::vector<std::string> got;
        is.imbue(std::locale::classic());
        if(thrown) is.exceptions(std::ios::badbit);
        for(auto& o : ops)
        {
            try { got.push_back(o.run(is)); }
            catch(const boom&) { got.push_back(cat("boom state ", static_cast<int>(is.rdstate()))); }
            catch(const std::ios_base::failure&) { got.push_back("failure"); }
        }
        return got;
    };
    ref_source<C> rb(want);
    std::basic_istream<C> ref(&rb);
    std::vector<std::string> w = run(ref), g;
    std::size_t pos = 0;
    // the elements after the last one needed are not there at all
    std::basic_string<C> whole;
    for(std::size_t i = 0; i < want.pos; ++i) whole += want.at(i);
    switch(kind)
    {
    case 0:
    {
        papilio::basic_iterbuf<C, source_it<C>> buf(source_it<C>{mine});
        std::basic_istream<C> is(&buf);
        g = run(is);
        pos = buf.base().m->pos;
        for(std::size_t i = 0; i < mine.reads.size(); ++i)
            if(mine.reads[i] != 1) CK(false, "element read more than once or skipped", "element ", i, " ", mine.reads[i], " times");
        c.eval();
        break;
    }
    case 1:
    {
        std::unique_ptr<C[]> block(new C[whole.size()]);
        std::copy(whole.begin(), whole.end(), block.get());
        papilio::basic_iterbuf<C, const C*> buf(std::in_place, block.get());
        std::basic_istream<C> is(&buf);
        g = run(is);
        pos = static_cast<std::size_t>(buf.base() - block.get());
        break;
    }
    case 2:
    {
        std::list<C> l(whole.begin(), whole.end());
        papilio::basic_iterbuf<C, typename std::list<C>::const_iterator> buf(l.cbegin());
        std::basic_istream<C> is(&buf);
        g = run(is);
        pos = static_cast<std::size_t>(std::distance(l.cbegin(), buf.base()));
        break;
    }
    case 3:
    {
        // over another stream
        std::basic_istringstream<C> in(whole + C('x'));
        papilio::basic_iterbuf<C, std::istreambuf_iterator<C>> buf{std::istreambuf_iterator<C>(in)};
        std::basic_istream<C> is(&buf);
        g = run(is);
        pos = static_cast<std::size_t>(in.tellg());
        break;
    }
    default:
    {
        // writable elements: both directions share the position
        std::deque<C> d(whole.begin(), whole.end());
        papilio::basic_iterbuf<C, typename std::deque<C>::iterator> buf(d.begin());
        {
            std::basic_istream<C> is(&buf);
            g = run(is);
        }
        pos = static_cast<std::size_t>(buf.base() - d.begin());
        d.push_back(C('-'));
        break;
    }
    }
    for(std::size_t i = 0; i < ops.size(); ++i)
        CK(g[i] == w[i], "read characters", "step ", i, " (", ops[i].what, ") got ", g[i], " want ", w[i]);
    CK(pos == want.pos, "elements taken from the iterator", pos, " want ", want.pos);
    c.count("characters_read", pos);
    if(faults) c.count("interrupted_reads");
    if(pos != 0) c.nontrivial(hash_str(what, hash_str(shown(want.text), static_cast<std::uint64_t>(kind))));
}

// ---- joined ranges in streams

template <typename C>
struct element
{
    int v;
    bool bad = false;
    friend std::basic_ostream<C>& operator<<(std::basic_ostream<C>& os, const element& e)
    {
        if(e.bad) throw boom();
        return os << C('<') << e.v << C('>');
    }
};
// each element can be taken once
template <typename C>
struct once_range
{
    struct iterator
    {
        using value_type = element<C>;
        using difference_type = std::ptrdiff_t;
        using iterator_concept = std::input_iterator_tag;
        once_range* p = nullptr;
        element<C> operator*() const { ++p->taken[p->pos]; return p->items[p->pos]; }
        iterator& operator++() { ++p->pos; return *this; }
        void operator++(int) { ++p->pos; }
        bool operator==(std::default_sentinel_t) const { return p->pos == p->items.size(); }
    };
    std::vector<element<C>> items;
    std::vector<int> taken = std::vector<int>(items.size());
    std::size_t pos = 0;
    unsigned begun = 0;
    iterator begin() { ++begun; return {this}; }
    std::default_sentinel_t end() const { return {}; }
};

template <typename C>
void joined(Case& c)
{
    Rng& r = c.rng;
    std::size_t n = r.below(r.chance(1, 8) ? 60 : 6);
    auto text = any_text<C>(r, r.below(5));
    int sep_kind = static_cast<int>(r.below(3));
    std::basic_string<C> sep = sep_kind == 0 ? widen<C>(", ") : text;
    if(sep_kind == 2) sep = sep.c_str();
    int kind = static_cast<int>(r.below(8));
    int width = r.coin() ? 0 : static_cast<int>(r.below(12));
    bool hex = r.coin();
    c.desc(cat("joined range ", kind, " of ", n, " elements, separator ", sep_kind, " ", shown(sep), " width ", width));
    std::basic_ostringstream<C> got, want;
    bool got_boom = false, want_boom = false;
    for(auto* o : {&got, &want})
    {
        o->imbue(std::locale::classic());
        o->width(width);
        o->fill(C('_'));
        if(hex) o->setf(std::ios::hex, std::ios::basefield);
    }
    auto run = [&](auto& rng, const auto& items)
    {
        try
        {
            if(sep_kind == 0)
            {
                auto j = papilio::join<C>(rng);
                CK(j.separator() == sep, "separator", "");
                got << j;
            }
            else if(sep_kind == 1)
            {
                auto j = papilio::join<C>(rng, std::basic_string_view<C>(text));
                auto k = j;
                CK(k.separator().data() == text.data() && k.separator().size() == text.size(), "separator", "");
                got << k;
            }
            else got << papilio::join(rng, text.c_str());
        }
        catch(const boom&) { got_boom = true; }
        try
        {
            std::size_t i = 0;
            for(const auto& e : items)
            {
                if(i++ != 0) want << sep;
                want << e;
            }
        }
        catch(const boom&) { want_boom = true; }
    };
    auto ints = [&] { std::vector<int> v; for(std::size_t i = 0; i < n; ++i) v.push_back(static_cast<int>(r.next()) >> r.below(32)); return v; };
    switch(kind)
    {
    case 0: { auto v = ints(); run(v, v); break; }
    case 1: { auto v = ints(); const std::set<int> s(v.begin(), v.end()); run(s, s); break; }
    case 2: { std::list<std::basic_string<C>> l; for(std::size_t i = 0; i < n; ++i) l.push_back(any_text<C>(r, r.below(6))); run(l, l); break; }
    case 3: { std::vector<bool> v; for(std::size_t i = 0; i < n; ++i) v.push_back(r.coin()); run(v, v); break; }
    case 4:
    {
        auto v = ints();
        auto view = v | std::views::filter([](int x) { return x % 2 == 0; });
        std::vector<int> even;
        std::copy_if(v.begin(), v.end(), std::back_inserter(even), [](int x) { return x % 2 == 0; });
        run(view, even);
        break;
    }
    case 5: { C a[4] = {C('x'), C(' '), C('y'), C('z')}; run(a, a); break; }
    case 6: { std::forward_list<double> l; for(std::size_t i = 0; i < n; ++i) l.push_front(static_cast<double>(r.range(-1000, 1000)) / 4); run(l, l); break; }
    default:
    {
        once_range<C> o{.items = [&] { std::vector<element<C>> v; for(int i : ints()) v.push_back({i, r.chance(1, 20)}); return v; }()};
        std::size_t upto = 0;
        while(upto < o.items.size() && !o.items[upto].bad) ++upto;
        run(o, o.items);
        for(std::size_t i = 0; i < o.taken.size(); ++i)
            CK(o.taken[i] == (i <= upto ? 1 : 0), "joined element taken more than once or not at all", i, " ", o.taken[i], " times");
        CK(o.begun == 1, "joined range begun more than once", o.begun);
        break;
    }
    }
    CK(got_boom == want_boom, "exception of a joined element", got_boom);
    CK(got.str() == want.str(), "joined text", "got ", shown(got.str()), " want ", shown(want.str()));
    CK(got.rdstate() == want.rdstate() && got.width() == want.width(), "state after a joined range", "");
    c.count("joined_ranges");
    if(n > 0) c.nontrivial(hash_str(shown(want.str()), static_cast<std::uint64_t>(kind)));
}
} // namespace c24
