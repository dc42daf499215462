// Judges is_independent with the first bytes of the matches the real code finds, and, for plain
// enough patterns, with the first bytes the model allows.
#include <cstdio>
#include <map>
#include <memory>
#include <set>
#include <string>

#include "first.hpp"
#include "indep_probe.hpp"
#include "inputs.hpp"
#include "placement.hpp"
#include "progress.hpp"
#include "ref.hpp"

std::vector<indep::Family>& indep::all()
{
    static std::vector<Family> v;
    return v;
}
std::vector<probe::Regex>& probe::all()
{
    static std::vector<Regex> v;
    return v;
}

namespace
{
    using std::string;
    using std::string_view;

    struct Config
    {
            string   progress = "/dev/null";
            uint64_t seed     = 1;
            long     first = 0, only = -1, hang = 10;
            size_t   rand = 200;
    } cfg;

    void run_case(const indep::Family& f, long index)
    {
        progress::on_case(index);
        const size_t             n = f.regexes.size();
        std::vector<ref::set256> seen(n);
        std::vector<ref::First>       allowed(n);
        std::vector<std::map<int, string>> witness(n);
        static placement::Arena  arena;
        long evaluations = 0, matches = 0, pairs = 0, independent = 0;
        string id;
        for (auto& r: f.regexes)
            id += (id.empty() ? "" : "  ") + string(r.pattern);
        auto violation = [&](const char* kind, const string& input, const string& got, const string& want) {
            printf("V\t%s\t%ld\t%s\t%s\t%s\t%s\n",
                   kind,
                   index,
                   progress::hex(id).c_str(),
                   progress::hex(input).c_str(),
                   progress::field(got).c_str(),
                   progress::field(want).c_str());
        };

        for (size_t i = 0; i < n; ++i)
        {
            const auto& r = f.regexes[i];
            ref::Regex  m {r.pattern};
            allowed[i] = ref::first(m.ast());
            std::seed_seq sq {(uint32_t) cfg.seed, (uint32_t) std::hash<string_view> {}(r.pattern)};
            inputs::rng_t rng {sq};
            string        alpha = inputs::alphabet(m.ast(), rng, 6);
            probe::Res    o;
            auto          attempt = [&](const string& s) {
                if (s.empty())
                    return;
                progress::on_input(s);
                const auto v = arena.before_guard(s);
                r.search(v, o);
                ++evaluations;
                if (o.ok && !o.whole.empty())
                {
                    // wherever the match begins
                    const unsigned char c = (unsigned char) o.whole[0];
                    ++matches;
                    if (!seen[i].test(c))
                    {
                        seen[i].set(c);
                        witness[i][c] = s;
                    }
                }
            };
            for (size_t k = 0; k < cfg.rand; ++k)
            {
                string s;
                inputs::sample(m.ast(), rng, s, 0);
                attempt(s);
                attempt(inputs::random_one(m.ast(), alpha, rng, 20));
            }
            for (int c = 0; c < 256; ++c)
                for (int k = 0; k < 6; ++k)
                {
                    string s;
                    inputs::sample(m.ast(), rng, s, 0);
                    if (s.empty() || k == 5)
                        s.insert(s.begin(), (char) c);
                    else
                        s[0] = (char) c;
                    attempt(s);
                }
        }

        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j)
            {
                ++pairs;
                const bool   says = f.as_template[i * n + j];
                const string who  = string(f.regexes[i].pattern) + " vs " + string(f.regexes[j].pattern);
                independent += says;
                if (says != (bool) f.as_argument[i * n + j])
                    violation("independence-overloads", "", who, "both overloads agree");
                if (says != (bool) f.as_template[j * n + i])
                    violation("independence-asymmetric", "", who, "symmetric");
                const auto common = seen[i] & seen[j];
                if (says && common.any())
                {
                    int c = 0;
                    while (!common.test(c))
                        ++c;
                    violation("independence-unsound",
                              witness[i][c],
                              who + " called independent",
                              "matches of both begin with byte " + std::to_string(c) + ", as of "
                                  + progress::hex(witness[j][c]));
                }
                if (!says && allowed[i].plain && allowed[j].plain && !allowed[i].nullable && !allowed[j].nullable
                    && (allowed[i].set & allowed[j].set).none())
                    violation("independence-missed",
                              "",
                              who + " not called independent",
                              "no match of one can begin like a match of the other");
            }
        printf("K\t%ld\t%s\t%ld\t%ld\t%ld\t0\t0\t%ld\t\n",
               index,
               progress::hex(id).c_str(),
               evaluations + pairs,
               matches,
               pairs,
               independent);
        fflush(stdout);
    }
} // namespace

int main(int argc, char** argv)
{
    for (int i = 1; i < argc; ++i)
    {
        const string a = argv[i];
        auto         v = [&]() -> string { return argv[++i]; };
        if (a == "--progress")
            cfg.progress = v();
        else if (a == "--seed")
            cfg.seed = std::stoull(v());
        else if (a == "--first")
            cfg.first = std::stol(v());
        else if (a == "--only")
            cfg.only = std::stol(v());
        else if (a == "--rand")
            cfg.rand = std::stoul(v());
        else if (a == "--hang")
            cfg.hang = std::stol(v());
        else
            ++i;
    }
    progress::start(cfg.progress.c_str(), cfg.hang);
    auto& all = indep::all();
    for (long k = cfg.first; k < (long) all.size(); ++k)
        if (cfg.only < 0 || cfg.only == k)
            try
            {
                run_case(all[k], k);
            }
            catch (const ref::unsupported& e)
            {
                printf("U\t%ld\t%s\t%s\n", k, "", e.what());
            }
    printf("END\t%zu\n", all.size());
    fflush(stdout);
}
