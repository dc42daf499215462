// Evaluates a regex on an input as a constant expression, and again at run time.
#pragma once
#include <array>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <e_regex.hpp>
#include <string_view>

namespace constant
{
    template<size_t groups>
    struct Sequence
    {
            static constexpr size_t cap = 12;
            struct Match
            {
                    bool                         ok = false;
                    long                         b = 0, e = 0;
                    std::array<long, 2 * groups> g {};
            };
            std::array<Match, cap> m {};
            size_t                 size  = 0;
            size_t                 range = 0; // matches of range-for
    };

    template<auto P>
    constexpr auto run(std::string_view s)
    {
        constexpr e_regex::regex<P> matcher;
        Sequence<matcher.groups>    o;
        auto                        r = matcher(s);
        while (o.size < o.cap)
        {
            auto& m = o.m[o.size++];
            m.ok    = r.is_accepted();
            if (!m.ok)
                break;
            auto v = r.to_view();
            m.b    = s.empty() ? 0 : v.data() - s.data();
            m.e    = m.b + (long) v.size();
            for (unsigned i = 0; i < matcher.groups; ++i)
            {
                auto g         = r[i + 1];
                m.g[2 * i]     = g.empty() ? -1 : g.data() - s.data();
                m.g[2 * i + 1] = g.empty() ? -1 : m.g[2 * i] + (long) g.size();
            }
            r.next();
        }
        for (std::string_view v: matcher(s))
        {
            (void) v;
            if (++o.range == o.cap)
                break;
        }
        return o;
    }

    template<size_t groups>
    void print(const char* tag, int k, const Sequence<groups>& o)
    {
        printf("%s\t%d\t", tag, k);
        for (size_t i = 0; i < o.size; ++i)
        {
            printf("%s", i ? "|" : "");
            if (!o.m[i].ok)
            {
                printf("-");
                continue;
            }
            printf("%ld,%ld", o.m[i].b, o.m[i].e);
            for (size_t g = 0; g < groups; ++g)
                if (o.m[i].g[2 * g] < 0)
                    printf(" e");
                else
                    printf(" %ld,%ld", o.m[i].g[2 * g], o.m[i].g[2 * g + 1]);
        }
        printf("\t%zu\n", o.range);
        fflush(stdout);
    }

    // nothing the optimizer knows about, and nothing after it
    struct Copy
    {
            char*  data;
            size_t size;
            explicit Copy(std::string_view s): data {(char*) malloc(s.size() + 1)}, size {s.size()}
            {
                if (size)
                    memcpy(data, s.data(), size);
                data[size] = (char) 0xA5;
                asm volatile("" : : "r"(data) : "memory");
            }
            ~Copy()
            {
                free(data);
            }
            operator std::string_view() const
            {
                return {data, size};
            }
    };

    // The first matches on a text with each byte in place of each of its own
    template<size_t size>
    struct Sweep
    {
            std::array<std::array<unsigned long, 256>, size + 1> o {};
            size_t                                               accepted = 0;
    };

    template<auto P, size_t size>
    constexpr auto sweep(const std::array<char, size>& base)
    {
        constexpr e_regex::regex<P> matcher;
        Sweep<size>                 result;
        for (size_t place = 0; place <= size; ++place)
            for (unsigned byte = 0; byte < 256; ++byte)
            {
                // the last place: that byte alone
                std::array<char, size> text = base;
                text[place % size]          = (char) byte;
                std::string_view s {text.data() + place % size * (place == size), place == size ? 1 : size};
                auto             r   = matcher(s);
                unsigned long    sum = r.is_accepted();
                auto             add = [&](std::string_view v) {
                    sum = sum * 1000003 + (v.empty() ? 7 : (unsigned long) (v.data() - s.data()) * 31 + v.size() + 11);
                };
                if (r.is_accepted())
                {
                    ++result.accepted;
                    sum = sum * 1000003 + (unsigned long) (r.to_view().data() - s.data());
                    for (unsigned i = 0; i <= matcher.groups; ++i)
                        add(r[i]);
                }
                result.o[place][byte] = sum;
            }
        return result;
    }

    template<auto P, size_t size>
    void check_sweep(int k, const Sweep<size>& c, const std::array<char, size>& base)
    {
        printf("@\t%d\nC\t%d\tsweep\t%zu\nR\t%d\tsweep", k, k, c.accepted, k);
        fflush(stdout);
        std::array<char, size> copy = base;
        asm volatile("" : : "r"(copy.data()) : "memory");
        const auto r = sweep<P>(copy);
        for (size_t place = 0; place <= size; ++place)
            for (unsigned byte = 0; byte < 256; ++byte)
                if (r.o[place][byte] != c.o[place][byte])
                {
                    printf(" differs with byte %02x at %zu of %zu\t%zu\n", byte, place, size, r.accepted);
                    fflush(stdout);
                    return;
                }
        printf("\t%zu\n", r.accepted);
        fflush(stdout);
    }

    template<auto P, typename C>
    void check(int k, const C& from_constant, std::string_view s)
    {
        printf("@\t%d\n", k);
        fflush(stdout);
        print("C", k, from_constant);
        Copy c {s};
        print("R", k, run<P>(c));
    }
} // namespace constant
