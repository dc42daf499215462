// Builds a probe::Regex for a pattern, using only the documented interface of e-regex.
#pragma once
#include <e_regex.hpp>
#include <string_view>

#include "probe.hpp"

namespace probe
{
    template<typename R>
    void read(const R& r, unsigned groups, Res& o)
    {
        o.ok    = r.is_accepted();
        o.whole = r.to_view();
        o.g.clear();
        for (unsigned i = 1; i <= groups; ++i)
            o.g.push_back(r.get_group(i));

        if (static_cast<bool>(r) != o.ok)
            o.fault = "operator bool differs from is_accepted()";
        if (r.size() != groups)
            o.fault = "size() differs from the number of groups of the regex";
        auto same = [](std::string_view a, std::string_view b) {
            return a.size() == b.size() && (a.empty() || a.data() == b.data());
        };
        if (!same(r[0], o.whole) || !same(r.get_group(0), o.whole) || !same(*r, o.whole))
            o.fault = "[0], get_group(0) and to_view() differ";
        if (!same(static_cast<std::string_view>(r), o.whole))
            o.fault = "conversion to std::string_view differs from to_view()";
        if (!same(r.template get<0>(), o.whole))
            o.fault = "get<0>() differs from to_view()";
        for (unsigned i = 1; i <= groups; ++i)
            if (!same(r[i], o.g[i - 1]))
                o.fault = "[n] differs from get_group(n)";
    }

    inline bool identical(const Res& a, const Res& b)
    {
        auto same = [](std::string_view x, std::string_view y) {
            return x.data() == y.data() && x.size() == y.size();
        };
        if (a.ok != b.ok || !same(a.whole, b.whole) || a.g.size() != b.g.size())
            return false;
        for (size_t i = 0; i < a.g.size(); ++i)
            if (!same(a.g[i], b.g[i]))
                return false;
        return true;
    }

    template<auto P>
    __attribute__((noinline)) void search(std::string_view s, Res& o)
    {
        constexpr e_regex::regex<P> m;
        auto                        r = m(s);
        read(r, m.groups, o);
    }

    template<auto P>
    __attribute__((noinline)) void iterate(std::string_view s, std::vector<Res>& o, size_t cap)
    {
        constexpr e_regex::regex<P> m;
        o.clear();
        auto r    = m(s);
        bool more = r.is_accepted();
        while (o.size() < cap)
        {
            o.emplace_back();
            read(r, m.groups, o.back());
            if (!more)
                break;
            // a copy goes its own way
            auto       copy      = r;
            const bool copy_more = copy.next();
            Res        untouched;
            read(r, m.groups, untouched);
            if (!identical(untouched, o.back()))
                o.back().fault = "next() on a copy changed the original";
            more = r.next();
            if (more != copy_more || r.to_view().data() != copy.to_view().data()
                || r.to_view().size() != copy.to_view().size())
                o.back().fault = "next() on a copy differs from next() on the original";
            if (more != r.is_accepted())
            {
                o.back().fault = "next() differs from is_accepted()";
                break;
            }
        }
        if (!more)
        {
            // exhausted: it has to stay so
            if (r.next() || r.is_accepted() || !r.to_view().empty())
                o.back().fault = "next() found a match after having found none";
        }
    }

    template<auto P>
    __attribute__((noinline)) void range(std::string_view s, std::vector<std::string_view>& o, size_t cap)
    {
        constexpr e_regex::regex<P> m;
        o.clear();
        const auto r = m(s);
        for (std::string_view v: r)
        {
            if (o.size() == cap)
                break;
            o.push_back(v);
        }
    }

    // range-for on a result that next() has already advanced
    template<auto P>
    __attribute__((noinline)) void range_advanced(std::string_view               s,
                                                  std::vector<std::string_view>& o,
                                                  size_t                         cap)
    {
        constexpr e_regex::regex<P> m;
        o.clear();
        auto r = m(s);
        r.next();
        for (std::string_view v: r)
        {
            if (o.size() == cap)
                break;
            o.push_back(v);
        }
    }

#ifdef PROBE_PLAIN
    template<auto P>
    __attribute__((noinline)) void search_plain(std::string_view s, Res& o)
    {
        using tree = typename e_regex::tree_builder<e_regex::build_pack_string_t<P>>::tree;
        const e_regex::match_result<tree> r {s};
        read(r, e_regex::regex<P>::groups, o);
    }
#endif

    template<auto P>
    __attribute__((noinline)) void decompose(std::string_view s, std::vector<std::string_view>& o)
    {
        constexpr e_regex::regex<P> m;
        o.clear();
        if constexpr (m.groups == 0)
        {
            auto [a] = m(s);
            o        = {a};
        }
        else if constexpr (m.groups == 1)
        {
            auto [a, b] = m(s);
            o           = {a, b};
        }
        else if constexpr (m.groups == 2)
        {
            auto [a, b, c] = m(s);
            o              = {a, b, c};
        }
        else if constexpr (m.groups == 3)
        {
            auto [a, b, c, d] = m(s);
            o                 = {a, b, c, d};
        }
        else if constexpr (m.groups == 4)
        {
            auto [a, b, c, d, e] = m(s);
            o                    = {a, b, c, d, e};
        }
        else if constexpr (m.groups == 5)
        {
            auto [a, b, c, d, e, f] = m(s);
            o                       = {a, b, c, d, e, f};
        }
#include "decompose_more.hpp"
    }

    template<auto P, size_t N>
    __attribute__((noinline)) const char* array_of(std::string_view s)
    {
        using R = e_regex::regex<P>;
        constexpr R m;
        // what a string literal is: N - 1 characters and a NUL, of which some may be NUL themselves
        char array[N] {};
        s.copy(array, N - 1);
        const char (&text)[N] = array;
        const std::string_view view {text, N - 1};
        Res a, b, c;
        read(m(text), m.groups, a);
        read(m(view), m.groups, b);
        read(R::match(text), m.groups, c);
        if (!identical(a, b))
            return "a literal and a view of the same text have different matches";
        if (!identical(a, c))
            return "match() and operator() have different matches";
        return nullptr;
    }

    template<auto P>
    const char* arrays(std::string_view s)
    {
        if (const char* f = array_of<P, 1>(s))
            return f;
        if (const char* f = array_of<P, 5>(s))
            return f;
        return array_of<P, 17>(s);
    }

    template<auto P>
    std::string_view expression()
    {
        return e_regex::regex<P>::get_expression();
    }

    template<size_t size>
    struct literal
    {
            char text[size + 1] {};

            constexpr explicit literal(std::string_view from)
            {
                for (size_t i = 0; i < size; ++i)
                    text[i] = from[i];
            }
    };

    template<auto P, unsigned features>
    Regex make(std::string_view pattern, unsigned flags)
    {
        using R = e_regex::regex<P>;
        Regex r;
        r.pattern = pattern;
        r.flags   = flags;
        r.groups  = R::groups;
        if constexpr ((features & SEARCH) != 0)
            r.search = &search<P>;
        if constexpr ((features & ITERATE) != 0)
            r.iterate = &iterate<P>;
        if constexpr ((features & RANGE) != 0)
        {
            r.range          = &range<P>;
            r.range_advanced = &range_advanced<P>;
        }
#ifdef PROBE_PLAIN
        if constexpr ((features & PLAIN) != 0)
            r.search_plain = &search_plain<P>;
#endif
        if constexpr ((features & (EXPR | AGAIN)) != 0)
            r.expression = &expression<P>;
        if constexpr ((features & AGAIN) != 0)
        {
            // as if the expression had been written as a literal
            constexpr e_regex::static_string<R::get_expression().size()> e {
                literal<R::get_expression().size()>(R::get_expression()).text};
            r.search_again     = &search<e>;
            r.expression_again = &expression<e>;
            r.groups_again     = e_regex::regex<e>::groups;
        }
        if constexpr ((features & DECOMP) != 0)
            r.decompose = &decompose<P>;
        if constexpr ((features & ARRAYS) != 0)
            r.arrays = &arrays<P>;
        return r;
    }
} // namespace probe
