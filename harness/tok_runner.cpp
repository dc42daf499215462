// Runs compiled tokenizers on generated texts and judges the produced sequences with a sequential
// model: longest separator (the first one optional), longest token, ties to the first definition.
// Same command line and output as runner.cpp; a "pattern" is the list of definitions.
#include <algorithm>
#include <cstdio>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include "inputs.hpp"
#include "placement.hpp"
#include "progress.hpp"
#include "ref.hpp"
#include "tok_probe.hpp"

std::vector<tok::Tokenizer>& tok::all()
{
    static std::vector<Tokenizer> v;
    return v;
}

namespace
{
    using std::string;
    using std::string_view;
    using std::to_string;

    struct Config
    {
            string   progress = "/dev/null", monitors, input;
            uint64_t seed     = 1;
            long     first = 0, only = -1, hang = 10;
            size_t   exh = 300, rand = 200, maxlen = 40;
            bool     has_input = false, long_inputs = false;
    } cfg;

    struct Definition
    {
            bool       separator;
            int        type;
            ref::Regex full;
            ref::Reach reach;
    };

    struct Expected
    {
            std::vector<tok::Token> tokens;
            bool                    decided = true; // up to the end
            bool                    complete = false; // the whole text was consumed
    };

    string name(const tok::Tokenizer& t)
    {
        string r;
        for (auto& d: t.definitions)
            r += (r.empty() ? "" : "  ") + (d.separator ? string("separator ") : "token " + to_string(d.type) + " ")
                 + string(d.pattern);
        return r;
    }

    // longest match at the head of s, among separators or among tokens; -1: cannot tell
    long best(std::vector<Definition>& defs, bool separators, string_view s, const Definition*& which)
    {
        size_t length = 0;
        which         = nullptr;
        for (auto& d: defs)
        {
            if (d.separator != separators)
                continue;
            d.full.steps_left = d.reach.all.steps_left = 500000;
            const auto a = d.full.match_at(s, 0), b = d.reach.all.match_at(s, 0);
            if (a.ok != b.ok || (a.ok && a.e != b.e) || !d.reach.between(s, 0, a, 500000, true))
                return -1;
            if (a.ok && a.e > length)
            {
                length = a.e;
                which  = &d;
            }
        }
        return (long) length;
    }

    Expected model(std::vector<Definition>& defs, string_view s)
    {
        Expected          x;
        size_t            at = 0;
        bool              first = true;
        const Definition* d;
        for (;;)
        {
            const long sep = best(defs, true, s.substr(at), d);
            if (sep < 0)
            {
                x.decided = false;
                return x;
            }
            if (sep == 0 && !first)
                break;
            const size_t after = at + sep;
            const long   len   = best(defs, false, s.substr(after), d);
            if (len < 0)
            {
                x.decided = false;
                return x;
            }
            if (len == 0)
                break;
            x.tokens.push_back({d->type, s.substr(after, len)});
            at    = after + len;
            first = false;
        }
        x.complete = at == s.size();
        return x;
    }

    string show(const std::vector<tok::Token>& t, string_view s)
    {
        string o;
        for (auto& k: t)
        {
            const long b = k.value.data() - s.data();
            o += (o.empty() ? "" : " ") + to_string(k.type) + ":" + to_string(b) + ","
                 + to_string(b + (long) k.value.size());
        }
        return o.empty() ? "-" : o;
    }

    void run_case(const tok::Tokenizer& t, long index)
    {
        progress::on_case(index);
        const string            id = name(t);
        std::vector<Definition> defs;
        auto                    root = ref::mk(ref::K::ALT), toks = ref::mk(ref::K::ALT), seps = ref::mk(ref::K::ALT);
        try
        {
            for (auto& d: t.definitions)
            {
                defs.push_back({d.separator, d.type, ref::Regex {d.pattern}, ref::Reach {d.pattern}});
                root->kids.push_back(defs.back().full.ast());
                (d.separator ? seps : toks)->kids.push_back(defs.back().full.ast());
            }
        }
        catch (const ref::unsupported& e)
        {
            printf("U\t%ld\t%s\t%s\n", index, progress::hex(id).c_str(), e.what());
            return;
        }
        std::seed_seq sq {(uint32_t) cfg.seed, (uint32_t) std::hash<string> {}(id)};
        inputs::rng_t rng {sq};
        string        alpha = inputs::alphabet(root, rng, 6);

        std::vector<string> in;
        if (cfg.has_input)
            in = {cfg.input};
        else
        {
            in = inputs::exhaustive(alpha, cfg.exh, 12);
            std::unordered_set<string> seen(in.begin(), in.end());
            auto                       text = [&](size_t maxlen) {
                string s;
                if (!seps->kids.empty() && rng() % 3 == 0)
                    inputs::sample(seps, rng, s, 0);
                for (size_t k = 1 + rng() % 5; k > 0 && s.size() < maxlen; --k)
                {
                    inputs::sample(toks, rng, s, 0);
                    if (!seps->kids.empty() && rng() % 10)
                        inputs::sample(seps, rng, s, 0);
                    if (rng() % 12 == 0)
                        s.push_back(rng() % 4 && !alpha.empty() ? alpha[rng() % alpha.size()] : (char) rng());
                }
                if (!s.empty() && rng() % 4 == 0)
                    s.erase(rng() % s.size(), 1);
                if (s.size() > maxlen)
                    s.resize(maxlen);
                return s;
            };
            for (size_t i = 0; i < cfg.rand; ++i)
            {
                string s = text(cfg.maxlen);
                if (seen.insert(s).second)
                    in.push_back(s);
            }
            if (cfg.long_inputs)
                for (size_t n: {256u, 1000u})
                {
                    string s;
                    while (s.size() < n)
                        s += text(30) + "";
                    in.push_back(s);
                }
        }

        static placement::Arena arena, arena2;
        std::vector<tok::Token> got, got2;
        long                    evaluations = 0, nontrivial = 0, compared = 0, undecided = 0, budget = 0, reported = 0;
        std::set<string>        outcomes;
        string                  sample;
        auto violation = [&](const char* kind, const string& input, const string& g, const string& w) {
            if (++reported <= 4)
            {
                printf("V\t%s\t%ld\t%s\t%s\t%s\t%s\n",
                       kind,
                       index,
                       progress::hex(id).c_str(),
                       progress::hex(input).c_str(),
                       progress::field(g).c_str(),
                       progress::field(w).c_str());
                fflush(stdout);
            }
        };

        for (size_t n = 0; n < in.size(); ++n)
        {
            const string& text = in[n];
            progress::on_input(text);
            string_view  s   = n % 2 ? arena.before_guard(text) : arena.after_guard(text);
            const size_t cap = text.size() + 2;

            t.range(s, got, cap);
            const string g = show(got, s);
            outcomes.insert(g);
            const char* fault = t.manual(s, got2, cap);
            evaluations += 2;
            if (fault)
                violation("structure", text, fault, "consistent iterators");
            if (show(got2, s) != g)
                violation("manual", text, "++: " + show(got2, s), "range-for: " + g);

            // model free
            const char* last = s.data();
            bool        first = true;
            for (auto& k: got)
            {
                if (k.value.empty())
                    violation("structure", text, "an empty token in " + g, "tokens are not empty");
                else if (k.value.data() < last || k.value.data() + k.value.size() > s.data() + s.size()
                         || (!first && k.value.data() == last))
                    violation("structure", text, g, "tokens in order, inside the input, and separated");
                last  = k.value.data() + k.value.size();
                first = false;
            }
            if (got.size() >= cap)
                violation("structure", text, "more tokens than bytes", "");

            // elsewhere
            string_view o = n % 2 ? arena2.after_guard(text) : arena2.inside(text, n % 4 ? "\n" : "a", text + "\n");
            t.range(o, got2, cap);
            ++evaluations;
            if (show(got2, o) != g)
                violation("surroundings", text, show(got2, o), g);

            Expected x;
            try
            {
                x = model(defs, s);
            }
            catch (ref::Regex::budget&)
            {
                ++budget;
                continue;
            }
            if (!x.decided)
            {
                ++undecided;
                // still: what was decided has to be found first
                if (got.size() < x.tokens.size())
                    violation("tokens", text, g, show(x.tokens, s) + " ...");
                else
                {
                    got.resize(x.tokens.size());
                    if (show(got, s) != show(x.tokens, s))
                        violation("tokens", text, g, show(x.tokens, s) + " ...");
                }
                continue;
            }
            ++compared;
            if (!x.tokens.empty() || !text.empty())
                ++nontrivial;
            if (show(x.tokens, s) != g)
                violation("tokens", text, g, show(x.tokens, s));
            if (sample.empty() && x.tokens.size() > 2)
                sample = progress::hex(text) + " -> " + g;
        }
        printf("K\t%ld\t%s\t%ld\t%ld\t%ld\t%ld\t%ld\t%zu\t%s\n",
               index,
               progress::hex(id).c_str(),
               evaluations,
               nontrivial,
               compared,
               undecided,
               budget,
               outcomes.size(),
               sample.c_str());
        fflush(stdout);
    }
} // namespace

int main(int argc, char** argv)
{
    for (int i = 1; i < argc; ++i)
    {
        const string a = argv[i];
        auto         v = [&]() -> string { return argv[++i]; };
        if (a == "--progress")
            cfg.progress = v();
        else if (a == "--seed")
            cfg.seed = std::stoull(v());
        else if (a == "--first")
            cfg.first = std::stol(v());
        else if (a == "--only")
            cfg.only = std::stol(v());
        else if (a == "--exh")
            cfg.exh = std::stoul(v());
        else if (a == "--rand")
            cfg.rand = std::stoul(v());
        else if (a == "--maxlen")
            cfg.maxlen = std::stoul(v());
        else if (a == "--monitors")
            cfg.monitors = v();
        else if (a == "--hang")
            cfg.hang = std::stol(v());
        else if (a == "--long")
            cfg.long_inputs = true;
        else if (a == "--input")
        {
            cfg.input     = progress::unhex(v());
            cfg.has_input = true;
        }
        else
            return 79;
    }
    progress::start(cfg.progress.c_str(), cfg.hang);
    auto& all = tok::all();
    for (long k = cfg.first; k < (long) all.size(); ++k)
        if (cfg.only < 0 || cfg.only == k)
            run_case(all[k], k);
    printf("END\t%zu\n", all.size());
    fflush(stdout);
    return 0;
}
