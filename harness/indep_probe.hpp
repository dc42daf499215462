// A family of regexes and what is_independent says about every pair of them.
#pragma once
#include <vector>

#include "probe.hpp"

namespace indep
{
    struct Family
    {
            std::vector<probe::Regex> regexes;
            std::vector<char>         as_template; // row by row
            std::vector<char>         as_argument;
    };
    std::vector<Family>& all();
    struct Reg
    {
            explicit Reg(Family f)
            {
                all().push_back(std::move(f));
            }
    };
} // namespace indep
