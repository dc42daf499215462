// Builds a lean::Subject, using only the documented interface, and nothing that allocates.
#pragma once
#include <e_regex.hpp>
#include <tokenization/tokenizer.hpp>

#include "lean_probe.hpp"

namespace lean
{
    using e_regex::separator;
    using e_regex::token;

    enum class type : int
    {
        A,
        B,
        C
    };

    inline size_t consume(std::string_view v)
    {
        return v.size() + (v.empty() ? 0 : (unsigned char) v[v.size() - 1]);
    }

    template<typename R>
    size_t consume_all(const R& r)
    {
        size_t o = r.is_accepted() + static_cast<bool>(r) + consume(r.to_view()) + consume(*r) + consume(r[0]);
        for (size_t i = 1; i <= r.size(); ++i)
            o += consume(r.get_group((unsigned) i)) + consume(r[(unsigned) i]);
        return o;
    }

    template<auto P>
    __attribute__((noinline)) size_t search(std::string_view s)
    {
        constexpr e_regex::regex<P> m;
        return consume_all(m(s)) + consume_all(e_regex::regex<P>::match(s)) + m.get_expression().size();
    }

    template<auto P>
    __attribute__((noinline)) bool at_once(std::string_view s)
    {
        constexpr e_regex::regex<P> m;
        const auto                  r = m(s);
        return r.is_accepted() && r.to_view().data() == s.data();
    }

    template<auto P>
    __attribute__((noinline)) size_t iterate(std::string_view s, size_t cap)
    {
        constexpr e_regex::regex<P> m;
        size_t                      o = 0, n = 0;
        auto                        r = m(s);
        while (n++ < cap && r.next())
        {
            const auto copy = r;
            o += consume_all(copy);
        }
        n = 0;
        for (std::string_view v: m(s))
        {
            o += consume(v);
            if (++n >= cap)
                break;
        }
        return o;
    }

    template<typename T>
    __attribute__((noinline)) size_t first_token(std::string_view s)
    {
        constexpr T t {};
        auto        it = t(s);
        return it ? (size_t) it->type + consume(it->value) : 0;
    }

    template<typename T>
    __attribute__((noinline)) size_t tokens(std::string_view s, size_t cap)
    {
        constexpr T t {};
        size_t      o = 0, n = 0;
        for (auto token: t(s))
        {
            o += (size_t) token.type + consume(token.value);
            if (++n >= cap)
                break;
        }
        n             = 0;
        auto       it = T::match(s);
        const auto e  = it.end();
        while (it != e && n++ < cap)
        {
            const auto copy = it;
            o += consume((*copy).value);
            ++it;
        }
        return o;
    }

#define LEAN_NOEXCEPT(...)                                                                                             \
    if (!noexcept(__VA_ARGS__))                                                                                        \
    return #__VA_ARGS__

    template<typename R>
    const char* throwing_regex()
    {
        const R                m {};
        const std::string_view text {};
        LEAN_NOEXCEPT(R {});
        LEAN_NOEXCEPT(m(text));
        LEAN_NOEXCEPT(m("literal"));
        LEAN_NOEXCEPT(R::match(text));
        LEAN_NOEXCEPT(R::match("literal"));
        LEAN_NOEXCEPT(R::get_expression());
        LEAN_NOEXCEPT(m.is_independent(m));
        LEAN_NOEXCEPT(R::template is_independent<R>());
        auto        advanced = m(text);
        const auto& result   = advanced;
        using Result         = decltype(advanced);
        LEAN_NOEXCEPT(advanced.next());
        LEAN_NOEXCEPT(Result(result));
        LEAN_NOEXCEPT(result.is_accepted());
        LEAN_NOEXCEPT(static_cast<bool>(result));
        LEAN_NOEXCEPT(result.to_view());
        LEAN_NOEXCEPT(*result);
        LEAN_NOEXCEPT(static_cast<std::string_view>(result));
        LEAN_NOEXCEPT(result[0]);
        LEAN_NOEXCEPT(result.get_group(0));
        LEAN_NOEXCEPT(result.template get<0>());
        LEAN_NOEXCEPT(result.size());
        LEAN_NOEXCEPT(result.begin());
        LEAN_NOEXCEPT(result.end());
        auto it = result.begin();
        LEAN_NOEXCEPT(++it);
        LEAN_NOEXCEPT(*it);
        LEAN_NOEXCEPT(it != result.end());
        return nullptr;
    }

    template<typename T>
    const char* throwing_tokenizer()
    {
        const T                t {};
        const std::string_view text {};
        LEAN_NOEXCEPT(T {});
        LEAN_NOEXCEPT(t(text));
        LEAN_NOEXCEPT(T::match(text));
        auto it        = t(text);
        using Iterator = decltype(it);
        LEAN_NOEXCEPT(Iterator(it));
        LEAN_NOEXCEPT(++it);
        LEAN_NOEXCEPT(*it);
        LEAN_NOEXCEPT(it->value);
        LEAN_NOEXCEPT(static_cast<bool>(it));
        LEAN_NOEXCEPT(it.begin());
        LEAN_NOEXCEPT(it.end());
        LEAN_NOEXCEPT(it == it.end());
        LEAN_NOEXCEPT(it != it.end());
        return nullptr;
    }

    template<auto P>
    Subject regex(std::string_view pattern)
    {
        return {pattern, {{false, pattern}}, &search<P>, &iterate<P>, throwing_regex<e_regex::regex<P>>(), &at_once<P>};
    }
    template<typename T>
    Subject tokenizer(std::string_view id, std::vector<Definition> definitions)
    {
        return {id, std::move(definitions), &first_token<T>, &tokens<T>, throwing_tokenizer<T>()};
    }
} // namespace lean
