// Type-erased view of a compiled tokenizer.
#pragma once
#include <cstddef>
#include <string_view>
#include <vector>

namespace tok
{
    struct Definition
    {
            bool             separator;
            int              type;
            std::string_view pattern;
    };
    struct Token
    {
            int              type;
            std::string_view value;
    };
    struct Tokenizer
    {
            std::vector<Definition> definitions;
            // range-for
            void (*range)(std::string_view, std::vector<Token>&, size_t cap);
            // operator++ and operator bool; notes what is inconsistent
            const char* (*manual)(std::string_view, std::vector<Token>&, size_t cap);
    };

    std::vector<Tokenizer>& all();
    struct Reg
    {
            explicit Reg(Tokenizer t)
            {
                all().push_back(std::move(t));
            }
    };
} // namespace tok
