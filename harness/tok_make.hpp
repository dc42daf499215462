// Builds a tok::Tokenizer, using only the documented interface.
#pragma once
#include <e_regex.hpp>
#include <tokenization/tokenizer.hpp>

#include "tok_probe.hpp"

#include <string>
#include <type_traits>
#include <vector>

namespace tok
{
    using e_regex::separator;
    using e_regex::token;

    enum class type : int
    {
        T0 = 7, // not the default value
        T1 = 1,
        T2 = -2,
        T3 = 300,
        T4 = 0,
        T5 = 5,
        T6 = 66,
        T7 = 70000
    };

    template<typename T>
    void range(std::string_view s, std::vector<Token>& o, size_t cap)
    {
        constexpr T t {};
        o.clear();
        for (auto token: t(s))
        {
            if (o.size() == cap)
                break;
            o.push_back({(int) token.type, token.value});
        }
    }

    // The value of a token equals what has the same bytes, wherever that is, and nothing else
    template<typename V>
    const char* comparisons(const V& v)
    {
        const std::string_view view = v;
        if ((size_t) v.size() != view.size() || v.empty() != view.empty() || v.begin() != view.data()
            || v.end() != view.data() + view.size())
            return "accessors of a value disagree";
        auto differs = [&](std::string_view o, bool want) {
            const V other {o};
            return (v == other) == want || (other == v) == want || (v != other) != want || (other != v) != want;
        };
        std::string      c {view};
        std::string_view there {c};
        if (differs(view, false) || differs(there, false))
            return "a value differs from a copy of it";
        for (size_t k = 0; k < c.size(); k = k < 24 || k + 1 == c.size() ? k + 1 : c.size() - 1)
            for (unsigned bit: {0u, 7u})
            {
                const char was = c[k];
                c[k]           = (char) (was ^ (1u << bit));
                if (differs(there, true))
                    return "a value equals something else";
                c[k] = was;
            }
        for (size_t k: {size_t {0}, c.size() / 2, c.size() - 1})
            if (k < c.size() && (differs(there.substr(0, k), true) || differs(there.substr(c.size() - k), true)))
                return "a value equals a part of it";
        c += c.empty() ? 'x' : c.back();
        if (differs(c, true))
            return "a value equals something longer";
        // as they are written in programs: string literals
        if ((v == "a") != (view == "a") || (v == "if") != (view == "if") || (v == "ab") != (view == "ab")
            || (v == "b") != (view == "b") || (v == "12") != (view == "12") || (v == "a\0b") != (view == std::string_view {"a\0b", 3})
            || (v == "") != view.empty() || (v != "ba") != (view != "ba"))
            return "a value compares wrongly with a string literal";
        return nullptr;
    }

    template<typename T>
    const char* manual(std::string_view s, std::vector<Token>& o, size_t cap)
    {
        constexpr T t {};
        o.clear();
        const char* fault = nullptr;
        auto        it    = T::match(s);
        const auto  end   = it.end();
        std::vector<std::remove_const_t<decltype(it)>> visited;
        while (o.size() < cap)
        {
            if (static_cast<bool>(it) != (it != end) || (it == end) != !(it != end))
                fault = "operator bool differs from != end()";
            if (!it)
                break;
            const auto             v    = *it;
            const std::string_view view = v.value, arrow = it->value;
            if (arrow.data() != view.data() || arrow.size() != view.size() || it->type != v.type)
                fault = "operator-> differs from operator*";
            if (const char* f = comparisons(v.value); f != nullptr)
                fault = f;
            if (visited.size() < 12)
                visited.push_back(it);
            o.push_back({(int) v.type, view});
            // a copy goes its own way
            auto copy = it;
            ++copy;
            const std::string_view still = it->value;
            if (still.data() != view.data() || still.size() != view.size() || it->type != v.type)
                fault = "++ on a copy changed the original";
            ++it;
            const std::string_view a = (*it).value, b = (*copy).value;
            if (static_cast<bool>(it) != static_cast<bool>(copy) || a.size() != b.size() || a.data() != b.data())
                fault = "++ on a copy differs from ++ on the original";
        }
        for (size_t i = 0; i < visited.size(); ++i)
            for (size_t j = 0; j < visited.size(); ++j)
                if ((visited[i] == visited[j]) != (i == j) || (visited[i] != visited[j]) != (i != j))
                    fault = "iterators are equal at different positions, or differ at the same";
        if (!it)
        {
            ++it;
            if (it)
                fault = "++ found a token after the end";
            auto again = it.begin();
            if (static_cast<bool>(again) != !o.empty())
                fault = "begin() does not restart";
            else if (again)
            {
                const std::string_view v = again->value;
                if (v.data() != o[0].value.data() || v.size() != o[0].value.size() || (int) again->type != o[0].type)
                    fault = "begin() does not restart from the first token";
            }
        }
        return fault;
    }

    template<typename T>
    Tokenizer make(std::vector<Definition> d)
    {
        return {std::move(d), &range<T>, &manual<T>};
    }

    // ---- as constant expressions
    struct Constant
    {
            static constexpr size_t cap = 10;
            struct One
            {
                    int  type = 0;
                    long b = 0, e = 0;
            };
            One    t[cap] {};
            size_t size = 0;
    };

    template<typename T>
    constexpr Constant constant(std::string_view s)
    {
        constexpr T t {};
        Constant    o;
        for (auto token: t(s))
        {
            if (o.size == o.cap)
                break;
            std::string_view v = token.value;
            auto&            x = o.t[o.size++];
            x.type             = (int) token.type;
            x.b                = v.data() - s.data();
            x.e                = x.b + (long) v.size();
        }
        return o;
    }
} // namespace tok
