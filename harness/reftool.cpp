// The model on its own: for every pattern (hex) on stdin, prints inputs and what has to be found.
//   reftool SEED NUMBER MAXLEN
//   P pattern(hex) groups            once per pattern (or U pattern reason)
//   I pattern(hex) input(hex) reach want | next want | ...
#include <cstdio>
#include <iostream>
#include <string>

#include "inputs.hpp"
#include "progress.hpp"
#include "ref.hpp"

using std::string;

static string show(const ref::Match& m)
{
    if (!m.ok)
        return "-";
    string o = std::to_string(m.b) + "," + std::to_string(m.e);
    for (auto& [b, e]: m.g)
        o += b == e ? string(" e") : " " + std::to_string(b) + "," + std::to_string(e);
    return o;
}

int main(int argc, char** argv)
{
    const uint64_t seed = std::stoull(argv[1]);
    const size_t   n = std::stoul(argv[2]), maxlen = std::stoul(argv[3]);
    string line;
    while (std::getline(std::cin, line))
    {
        const string pat = progress::unhex(line);
        try
        {
            ref::Regex    full {pat};
            ref::Reach    choices {pat};
            std::seed_seq sq {(uint32_t) seed, (uint32_t) std::hash<string> {}(pat)};
            inputs::rng_t rng {sq};
            printf("P\t%s\t%d\n", line.c_str(), full.caps);
            string                alpha = inputs::alphabet(full.ast(), rng, 6);
            std::set<string>      seen;
            std::set<string>      outcomes;
            for (size_t k = 0, done = 0; k < n * 20 && done < n; ++k)
            {
                string s;
                if (k == 0)
                    s = "";
                else if (k < 4)
                    inputs::sample(full.ast(), rng, s, 0);
                else
                    s = inputs::random_one(full.ast(), alpha, rng, maxlen);
                if (s.size() > maxlen)
                    s.resize(maxlen);
                if (!seen.insert(s).second)
                    continue;
                try
                {
                    string all;
                    bool   reach = true;
                    for (size_t from = 0;;)
                    {
                        ref::Match a, b;
                        if (from <= s.size())
                        {
                            a = full.search(s, from, 300000);
                            b = choices.all.search(s, from, 300000);
                        }
                        const string w = show(a);
                        reach          = reach && w == show(b)
                                && (from > s.size() || choices.between(s, from, a, 300000));
                        all += (all.empty() ? "" : "|") + w;
                        if (!a.ok)
                            break;
                        from = a.e > a.b ? a.e : a.e + 1;
                    }
                    // prefer inputs with something new to see
                    if (!outcomes.insert(all).second && k % 3 != 0)
                        continue;
                    ++done;
                    printf("I\t%s\t%s\t%d\t%s\n", line.c_str(), progress::hex(s).c_str(), (int) reach, all.c_str());
                }
                catch (ref::Regex::budget&)
                {
                }
            }
        }
        catch (const ref::unsupported& e)
        {
            printf("U\t%s\t%s\n", line.c_str(), e.what());
        }
    }
}
