// Runs compiled patterns (registered by the generated translation units) on generated inputs and
// judges every execution with the model in ref.hpp and with model free monitors.
//
// runner --progress FILE --seed N --first K --only K --exh N --rand N --maxlen N --monitors LIST
//        --input HEX (replay) --hang SECONDS
//
// Output, tab separated:
//   V  kind  case  pattern(hex)  input(hex)  got  want       a monitor fired
//   K  case  pattern(hex)  evaluations  nontrivial  compared  out_of_reach  budget  outcomes  sample
//   U  case  pattern(hex)  reason                            the model does not cover the pattern
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include "inputs.hpp"
#include "placement.hpp"
#include "probe.hpp"
#include "progress.hpp"
#include "first.hpp"
#include "ref.hpp"

std::vector<probe::Regex>& probe::all()
{
    static std::vector<probe::Regex> v;
    return v;
}

namespace
{
    using probe::Res;
    using std::string;
    using std::string_view;
    using std::to_string;

    struct Config
    {
            string   progress = "/dev/null";
            uint64_t seed     = 1;
            long     first = 0, only = -1;
            size_t   exh = 300, rand = 200, maxlen = 40;
            string   monitors = "span";
            string   input;
            bool     has_input = false;
            long     hang      = 10;
            bool     long_inputs = false;
    } cfg;

    bool on(const char* m)
    {
        return ("," + cfg.monitors + ",").find(string(",") + m + ",") != string::npos;
    }

    string show_span(long b, long e)
    {
        return to_string(b) + "," + to_string(e);
    }

    // What was observed, relative to the input.  Empty groups are all alike.
    string show(const Res& r, string_view s, bool caps)
    {
        auto rel = [&](string_view v) {
            return v.data() == nullptr ? 0L : (long) (v.data() - s.data());
        };
        if (!r.ok)
            return "-";
        string o = show_span(rel(r.whole), rel(r.whole) + (long) r.whole.size());
        if (caps)
            for (auto& g: r.g)
                o += g.empty() ? " e" : " " + show_span(rel(g), rel(g) + (long) g.size());
        return o;
    }
    string show(const ref::Match& m, bool caps)
    {
        if (!m.ok)
            return "-";
        string o = show_span((long) m.b, (long) m.e);
        if (caps)
            for (auto& [b, e]: m.g)
                o += b == e ? string(" e") : " " + show_span(b, e);
        return o;
    }

    struct Case
    {
            const probe::Regex& p;
            long                index;
            long                evaluations = 0, nontrivial = 0, compared = 0, out_of_reach = 0, budget = 0;
            std::set<string>    outcomes;
            string              sample;
            int                 reported = 0;

            void violation(const char* kind, string_view input, const string& got, const string& want)
            {
                if (++reported > 4 && !(p.flags & probe::FULL))
                    return;
                printf("V\t%s\t%ld\t%s\t%s\t%s\t%s\n",
                       kind,
                       index,
                       progress::hex(p.pattern).c_str(),
                       progress::hex(input).c_str(),
                       progress::field(got).c_str(),
                       progress::field(want).c_str());
                fflush(stdout);
            }
    };

    struct Models
    {
            ref::Regex full;
            ref::Reach reach;

            explicit Models(string_view p)
                : full {p}, reach {p}
            {}
    };

    // Something else than what has to be found was found: may that be the known limitation?
    bool limitation(Models& m, string_view s, size_t from, const ref::Match& want, uint64_t steps)
    {
        try
        {
            return !m.reach.between(s, from, want, steps);
        }
        catch (ref::Regex::budget&)
        {
            return true;
        }
    }

    // What is inside what, whatever the pattern
    const char* structural(const Res& r, string_view s)
    {
        if (r.fault != nullptr)
            return r.fault;
        auto inside = [](string_view v, string_view in) {
            return v.data() >= in.data() && v.data() + v.size() <= in.data() + in.size();
        };
        if (!r.ok)
        {
            if (!r.whole.empty())
                return "not accepted, but the match is not empty";
            for (auto& g: r.g)
                if (!g.empty())
                    return "not accepted, but a group is not empty";
            return nullptr;
        }
        if (!inside(r.whole, s))
            return "the match is not inside the input";
        for (auto& g: r.g)
            if (!g.empty() && !inside(g, r.whole))
                return "a group is not inside the match";
        return nullptr;
    }

    // Every quantifier is reported, with its bounds, with its strategy or the possessive one: the latter
    // where the documentation foresees it, and wherever it is written.  Exact bounds have no strategy.
    void optimizations(Case& c, Models& m)
    {
        std::vector<ref::Quantifier> written, reported;
        ref::quantifiers(m.full.ast(), written);
        const string expression {c.p.expression()};
        try
        {
            ref::quantifiers(ref::Regex {expression}.ast(), reported);
        }
        catch (const ref::unsupported& e)
        {
            c.violation("expression-dialect", "", expression, string {"an expression of the dialect: "} + e.what());
            return;
        }
        auto all = [](const std::vector<ref::Quantifier>& v) {
            string s;
            for (auto& q: v)
                s += q.show() + ' ';
            return s;
        };
        c.evaluations += 1 + (long) written.size();
        c.nontrivial += !written.empty();
        bool same = written.size() == reported.size();
        for (size_t i = 0; same && i < written.size(); ++i)
            same = written[i].mn == reported[i].mn && written[i].mx == reported[i].mx
                   && (written[i].mn == written[i].mx || written[i].mode == reported[i].mode
                       || reported[i].mode == ref::Mode::POSS);
        if (!same)
        {
            c.violation("expression-quantifiers", "", expression + " with " + all(reported), all(written));
            return;
        }
        const auto removable = std::count_if(written.begin(), written.end(), [](auto& q) { return q.removable; });
        const auto kept      = std::count_if(reported.begin(), reported.end(), [](auto& q) { return q.mode != ref::Mode::POSS; });
        printf("N\t%ld\tquantifiers_to_be_optimized\t%ld\n", c.index, (long) removable);
        printf("N\t%ld\tquantifiers_not_possessive\t%ld\n", c.index, (long) kept);
        for (size_t i = 0; i < written.size(); ++i)
            if (written[i].removable && reported[i].mode != ref::Mode::POSS)
                c.violation("not-optimized",
                            "",
                            expression + " with " + all(reported),
                            "quantifier " + std::to_string(i + 1) + " possessive");
    }

    void run_case(const probe::Regex& p, long index)
    {
        Case c {p, index};
        progress::on_case(index);

        std::unique_ptr<Models> m;
        try
        {
            m = std::make_unique<Models>(p.pattern);
        }
        catch (const ref::unsupported& e)
        {
            printf("U\t%ld\t%s\t%s\n", index, progress::hex(p.pattern).c_str(), e.what());
            return;
        }

        const bool caps = on("caps"), span = on("span") || caps, acc = on("accessors");
        const bool iter = on("iterate"), plain = on("plain"), again = on("again"), surr = on("surroundings");
        const bool safe = on("memory");
        const bool full = (p.flags & probe::FULL) != 0;

        if ((unsigned) m->full.caps != p.groups)
            c.violation("groups", "", to_string(p.groups), to_string(m->full.caps));
        if (on("applied"))
            optimizations(c, *m);
        if (again)
        {
            if (p.groups_again != p.groups)
                c.violation("expression-groups",
                            p.expression(),
                            to_string(p.groups_again),
                            to_string(p.groups));
            if (p.expression_again() != p.expression())
                c.violation("expression-unstable",
                            "",
                            string(p.expression_again()),
                            string(p.expression()));
        }

        // ---- the workload
        std::seed_seq  sq {(uint32_t) cfg.seed, (uint32_t) std::hash<string_view> {}(p.pattern)};
        inputs::rng_t  rng {sq};
        std::vector<string> in;
        const bool   longer = (p.flags & probe::LONG) != 0;
        const size_t exh = longer ? std::min<size_t>(cfg.exh, 40) : cfg.exh;
        const size_t rand = longer ? std::min<size_t>(cfg.rand, 60) : cfg.rand;
        // bounds in their hundreds and thousands are reached when the time for it is there
        const size_t extent = std::max<size_t>(inputs::extent(m->full.ast()) + 100, 700);
        const bool   reach  = extent < 6000 && inputs::affordable(m->full.ast(), extent + 100);
        const size_t maxlen = longer ? (reach ? 2 * extent + 100 : 200) : cfg.maxlen;
        inputs::limit       = longer ? (reach ? extent : 150) : 60;
        string alpha = full ? "abc" : inputs::alphabet(m->full.ast(), rng, 7);
        if (cfg.has_input)
            in = {cfg.input};
        else if (full)
            in = inputs::exhaustive(alpha, 400, 3);
        else if (p.flags & probe::HUGE_INPUTS)
        {
            in = inputs::exhaustive(alpha, 30, 3);
            std::string filler {(char) 0x7e};
            for (size_t n: {32768u, 65535u, 65536u, 65537u})
            {
                string s, one;
                for (int k = 0; k < 9 && one.empty(); ++k)
                    inputs::sample(m->full.ast(), rng, one, 0);
                if (one.empty())
                    one = "a";
                in.push_back(string(n, filler[0]) + one + filler);
                for (size_t k = 0; k < alpha.size() && k < 2; ++k)
                    in.push_back(string(n, alpha[k]));
                while (s.size() + one.size() <= n)
                    s += one;
                in.push_back(s);
                s.clear();
                while (s.size() < n)
                    inputs::limit = s.size() + 60, inputs::sample(m->full.ast(), rng, s, 0), s += filler;
                inputs::limit = 60;
                in.push_back(s);
            }
        }
        else
        {
            in = inputs::exhaustive(alpha, exh, 12);
            std::unordered_set<string> seen(in.begin(), in.end());
            auto add = [&](string s) {
                if (seen.insert(s).second)
                    in.push_back(std::move(s));
            };
            if (p.flags & probe::BYTES)
            {
                for (int b = 0; b < 256; ++b)
                    add(string(1, (char) b));
                for (int b = 0; b < 512; ++b)
                {
                    string s;
                    inputs::sample(m->full.ast(), rng, s, 0);
                    if (s.size() > maxlen)
                        s.resize(maxlen);
                    if (s.empty())
                        s.push_back('a');
                    s[rng() % s.size()] = (char) (b & 255);
                    add(s);
                }
            }
            for (size_t i = 0; i < rand; ++i)
                add(inputs::random_one(m->full.ast(), alpha, rng, rng() % 8 ? maxlen / 2 : maxlen));
            if (cfg.long_inputs)
                for (size_t n: {127u, 128u, 255u, 256u, 257u, 600u, 4000u})
                {
                    if (!inputs::affordable(m->full.ast(), n))
                        break;
                    string s;
                    while (s.size() < n)
                    {
                        string one = inputs::random_one(m->full.ast(), alpha, rng, cfg.maxlen);
                        s += one.empty() ? string(1, alpha.empty() ? 'a' : alpha[0]) : one;
                    }
                    s.resize(n);
                    add(s);
                    // one repeated byte
                    add(string(n, alpha.empty() ? 'a' : alpha[rng() % alpha.size()]));
                }
        }

        const uint64_t steps = (p.flags & probe::HUGE_INPUTS) != 0 ? 400000000 : longer ? 40000000 : 2000000;
        static placement::Arena arena, arena2;
        Res                     r, r2;
        std::vector<Res>        seq;
        std::vector<string_view> views;

        for (size_t n = 0; n < in.size(); ++n)
        {
            const string& text = in[n];
            progress::on_input(text);
            const bool before = (n & 1) == 0;
            string_view s = before ? arena.before_guard(text) : arena.after_guard(text);

            p.search(s, r);
            ++c.evaluations;
            if (safe)
            {
                // the other side, and a view of nothing
                string_view o = before ? arena2.after_guard(text) : arena2.before_guard(text);
                p.search(o, r2);
                ++c.evaluations;
                if (show(r, s, true) != show(r2, o, true))
                    c.violation("placement", text, show(r2, o, true), show(r, s, true));
                if (text.empty())
                {
                    p.search(string_view {}, r2);
                    if (r2.ok != r.ok || !r2.whole.empty())
                        c.violation("placement", text, "null: " + show(r2, {}, true), show(r, s, true));
                }
            }

            if (acc || safe)
                if (const char* f = structural(r, s))
                    c.violation("structure", text, f, "consistent accessors");

            // ---- the model's verdict
            ref::Match want;
            bool       in_reach = true, decided = true;
            try
            {
                want = m->full.search(s, 0, steps);
                if (!full)
                {
                    const auto w2 = m->reach.all.search(s, 0, steps);
                    in_reach      = show(want, true) == show(w2, true);
                }
            }
            catch (ref::Regex::budget&)
            {
                decided = false;
                ++c.budget;
            }
            const string got_caps = show(r, s, true);
            if (decided && in_reach && !full && got_caps != show(want, true))
                in_reach = !limitation(*m, s, 0, want, steps);
            if (decided)
            {
                if (want.ok && want.e > want.b)
                    ++c.nontrivial;
                else if (!want.ok && !text.empty())
                    ++c.nontrivial;
            }
            c.outcomes.insert(got_caps);
            if (c.sample.empty() && r.ok && text.size() > 2 && text.size() < 200)
                c.sample = progress::hex(text) + " -> " + got_caps;

            if (decided && !in_reach)
                ++c.out_of_reach;

            if (span && decided && in_reach)
            {
                ++c.compared;
                const string g = show(r, s, caps), w = show(want, caps);
                if (g != w)
                    c.violation(caps ? "captures" : "span", text, g, w);
            }

            if (acc && p.decompose != nullptr)
                p.decompose(s, views);
            // (no views: a number of groups without a structured binding in regex_probe.hpp)
            if (acc && p.decompose != nullptr && !views.empty())
            {
                ++c.evaluations;
                auto same = [](string_view a, string_view b) {
                    return a.size() == b.size() && (a.empty() || a.data() == b.data());
                };
                bool ok = views.size() == p.groups + 1 && same(views[0], r.whole);
                for (unsigned k = 1; ok && k <= p.groups; ++k)
                    ok = same(views[k], r.g[k - 1]);
                if (!ok)
                    c.violation("structure", text, "structured binding differs", "same as get_group()");
            }

            if (p.arrays != nullptr && s.size() <= 20)
            {
                c.evaluations += 9;
                if (const char* f = p.arrays(s))
                    c.violation("structure", text, f, "the same match");
            }

            if (plain)
            {
                p.search_plain(s, r2);
                ++c.evaluations;
                const string w = show(r2, s, true);
                // the two may stand on different sides of the limitation
                if (decided && in_reach && (w == got_caps || full || !limitation(*m, s, 0, want, steps)))
                {
                    ++c.compared;
                    if (w != got_caps)
                        c.violation("heuristics", text, "optimized " + got_caps, "plain " + w);
                    else if (w != show(want, true))
                        c.violation("matched-set", text, got_caps, show(want, true));
                }
            }

            if (again)
            {
                p.search_again(s, r2);
                ++c.evaluations;
                const string w = show(r2, s, true);
                if (decided && in_reach && (w == got_caps || full || !limitation(*m, s, 0, want, steps)))
                {
                    ++c.compared;
                    if (w != got_caps)
                        c.violation("expression", text, "rebuilt " + w, "original " + got_caps);
                }
            }

            if (surr)
            {
                // text before and after which the pattern would love to use
                string pre, post;
                for (int k = 0; k < 3; ++k)
                {
                    string x, y;
                    inputs::sample(m->full.ast(), rng, x, 0);
                    inputs::sample(m->full.ast(), rng, y, 0);
                    if (k == 1)
                    {
                        x += '\n';
                        y = '\n' + y;
                    }
                    if (k == 2 && !text.empty())
                    {
                        x = text.substr(0, rng() % text.size());
                        y = text.substr(rng() % text.size());
                    }
                    string_view o = arena2.inside(text, x, y);
                    p.search(o, r2);
                    ++c.evaluations;
                    ++c.compared;
                    if (show(r2, o, true) != got_caps)
                        c.violation("surroundings", text, show(r2, o, true), got_caps);
                }
                // again, from the same bytes
                p.search(s, r2);
                if (show(r2, s, true) != got_caps)
                    c.violation("repeated", text, show(r2, s, true), got_caps);
            }

            if (iter)
            {
                const size_t cap = text.size() + 3;
                progress::stage("next");
                p.iterate(s, seq, cap);
                ++c.evaluations;
                // model free: progress and order
                long last_b = -1, last_e = 0;
                for (size_t k = 0; k < seq.size(); ++k)
                {
                    if (const char* f = structural(seq[k], s))
                        c.violation("structure", text, f, "consistent accessors");
                    if (!seq[k].ok)
                    {
                        if (k + 1 != seq.size())
                            c.violation("iteration", text, "a match after the last one", "");
                        break;
                    }
                    const long b = seq[k].whole.data() - s.data();
                    if (b < last_e || b <= last_b)
                        c.violation("iteration",
                                    text,
                                    "match " + to_string(k) + " at " + to_string(b),
                                    "after " + show_span(last_b, last_e));
                    last_b = b;
                    last_e = b + (long) seq[k].whole.size();
                }
                if (seq.size() >= cap)
                    c.violation("iteration", text, "more matches than positions", "");
                // the model, match by match
                bool   stopped = false;
                size_t from = 0, k = 0;
                std::vector<string> spans;
                for (; k < seq.size(); ++k)
                {
                    ref::Match a, b;
                    if (from > text.size())
                        a.ok = b.ok = false;
                    else
                    {
                        try
                        {
                            a = m->full.search(s, from, steps);
                            b = m->reach.all.search(s, from, steps);
                        }
                        catch (ref::Regex::budget&)
                        {
                            stopped = true;
                            break;
                        }
                    }
                    if (show(a, true) != show(b, true))
                    {
                        stopped = true;
                        break;
                    }
                    const string g = show(seq[k], s, true), w = show(a, true);
                    if (g != w && limitation(*m, s, from, a, steps))
                    {
                        stopped = true;
                        break;
                    }
                    ++c.compared;
                    if (g != w)
                    {
                        c.violation("iteration", text, "match " + to_string(k) + ": " + g, w);
                        stopped = true;
                        break;
                    }
                    if (!a.ok)
                        break;
                    from = a.e > a.b ? a.e : a.e + 1;
                }
                progress::stage("range-for");
                for (int adv = 0; adv < 2; ++adv)
                {
                    (adv ? p.range_advanced : p.range)(s, views, cap);
                    ++c.evaluations;
                    size_t found = 0;
                    while (found < seq.size() && seq[found].ok)
                        ++found;
                    bool ok = views.size() == found;
                    for (size_t j = 0; ok && j < found; ++j)
                        ok = views[j].data() == seq[j].whole.data() && views[j].size() == seq[j].whole.size();
                    if (!ok)
                        c.violation("iteration",
                                    text,
                                    (adv ? "range-for after next(): " : "range-for: ")
                                        + to_string(views.size()) + " matches",
                                    "the " + to_string(found) + " matches of next()");
                }
            }
        }

        printf("K\t%ld\t%s\t%ld\t%ld\t%ld\t%ld\t%ld\t%zu\t%s\n",
               index,
               progress::hex(p.pattern).c_str(),
               c.evaluations,
               c.nontrivial,
               c.compared,
               c.out_of_reach,
               c.budget,
               c.outcomes.size(),
               c.sample.c_str());
        fflush(stdout);
    }
} // namespace

int main(int argc, char** argv)
{
    for (int i = 1; i < argc; ++i)
    {
        const string a = argv[i];
        auto         v = [&]() -> string { return argv[++i]; };
        if (a == "--progress")
            cfg.progress = v();
        else if (a == "--seed")
            cfg.seed = std::stoull(v());
        else if (a == "--first")
            cfg.first = std::stol(v());
        else if (a == "--only")
            cfg.only = std::stol(v());
        else if (a == "--exh")
            cfg.exh = std::stoul(v());
        else if (a == "--rand")
            cfg.rand = std::stoul(v());
        else if (a == "--maxlen")
            cfg.maxlen = std::stoul(v());
        else if (a == "--monitors")
            cfg.monitors = v();
        else if (a == "--hang")
            cfg.hang = std::stol(v());
        else if (a == "--long")
            cfg.long_inputs = true;
        else if (a == "--input")
        {
            cfg.input     = progress::unhex(v());
            cfg.has_input = true;
        }
        else
            return 79;
    }
    progress::start(cfg.progress.c_str(), cfg.hang);
    auto& all = probe::all();
    for (long k = cfg.first; k < (long) all.size(); ++k)
        if (cfg.only < 0 || cfg.only == k)
            run_case(all[k], k);
    printf("END\t%zu\n", all.size());
    fflush(stdout);
    return 0;
}
