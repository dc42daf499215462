// Type-erased view of a regex or of a tokenizer, for the monitors of what an execution costs.
#pragma once
#include <cstddef>
#include <string_view>
#include <vector>

namespace lean
{
    struct Definition
    {
            bool             separator;
            std::string_view pattern;
    };
    struct Subject
    {
            std::string_view        id;
            std::vector<Definition> definitions; // one, not a separator: a regex
            // a search, and everything that its result says
            size_t (*search)(std::string_view) = nullptr;
            // every match by next() and by range-for, or every token, at most cap; copies of the results
            size_t (*iterate)(std::string_view, size_t cap) = nullptr;
            // an operation that is not noexcept
            const char* throwing = nullptr;
            // whether a match begins where the text does (not of a tokenizer)
            bool (*at_once)(std::string_view) = nullptr;
    };

    std::vector<Subject>& all();
    struct Reg
    {
            explicit Reg(Subject s)
            {
                all().push_back(std::move(s));
            }
    };
} // namespace lean
