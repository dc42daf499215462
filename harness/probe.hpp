// Type-erased view of one compiled regex, shared by the generated translation units (which
// include /repo's headers) and the runners (which only know the model in ref.hpp).
#pragma once
#include <cstddef>
#include <string_view>
#include <vector>

namespace probe
{
    struct Res
    {
            bool                          ok      = false; // is_accepted()
            bool                          same_ok = true;  // operator bool and friends agree
            std::string_view              whole {};        // to_view()
            std::vector<std::string_view> g {};            // [1..groups]
            const char*                   fault = nullptr; // accessors disagreeing with each other
    };

    struct Regex
    {
            std::string_view pattern;
            unsigned         flags = 0;
            unsigned         groups = 0;

            void (*search)(std::string_view, Res&) = nullptr;
            // every match found by next(), at most cap
            void (*iterate)(std::string_view, std::vector<Res>&, size_t) = nullptr;
            // every view produced by range-for, at most cap
            void (*range)(std::string_view, std::vector<std::string_view>&, size_t) = nullptr;
            // same, on a result that next() has already advanced
            void (*range_advanced)(std::string_view, std::vector<std::string_view>&, size_t) = nullptr;
            // the tree before any heuristic
            void (*search_plain)(std::string_view, Res&) = nullptr;
            std::string_view (*expression)() = nullptr;
            // the regex built from expression()
            void (*search_again)(std::string_view, Res&) = nullptr;
            std::string_view (*expression_again)() = nullptr;
            unsigned groups_again = 0;
            // structured binding of a search, empty when the group count is not covered
            void (*decompose)(std::string_view, std::vector<std::string_view>&) = nullptr;
            // the same texts as string literals and as views, through every way of searching: what differs
            const char* (*arrays)(std::string_view) = nullptr;
    };

    // What the check needs from a pattern
    enum Feature : unsigned
    {
        SEARCH  = 1,
        ITERATE = 2,
        RANGE   = 4,
        PLAIN   = 8,
        EXPR    = 16,
        AGAIN   = 32,
        DECOMP  = 64,
        ARRAYS  = 128
    };
    // How its executions are judged
    enum Flag : unsigned
    {
        FULL  = 1, // fixed short inputs, all compared: not only those out of reach of known findings
        HUGE_INPUTS = 8, // a few inputs over 65536 bytes, for patterns that are linear
        LONG  = 4, // few, but long inputs, with repetitions around their bounds
        BYTES = 2  // all the one byte inputs, and every byte in place of one of an input
    };

    std::vector<Regex>& all();

    struct Reg
    {
            explicit Reg(const Regex& r)
            {
                all().push_back(r);
            }
    };
} // namespace probe
