#pragma once
#include "indep_probe.hpp"
#include "regex_probe.hpp"

namespace indep
{
    template<typename A, typename... Bs>
    void row(Family& f)
    {
        (f.as_template.push_back(A::template is_independent<Bs>()), ...);
        (f.as_argument.push_back(A {}.is_independent(Bs {})), ...);
    }

    template<typename... Rs>
    Family make(std::vector<probe::Regex> regexes)
    {
        Family f {std::move(regexes), {}, {}};
        (row<Rs, Rs...>(f), ...);
        return f;
    }
} // namespace indep
