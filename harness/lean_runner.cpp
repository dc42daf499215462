// Runs regexes and tokenizers on texts of growing sizes and watches what an execution takes: dynamic
// memory, exceptions, stack, and steps (basic blocks, which the compiler was asked to announce).
// Same command line and output as runner.cpp.
//
// heap,throw,stack: harness code that runs while they are watched does none of it itself.
#include <algorithm>
#include <cstdio>
#include <exception>
#include <memory>
#include <set>
#include <string>
#include <ucontext.h>
#include <unordered_set>
#include <vector>

#include "inputs.hpp"
#include "lean_probe.hpp"
#include "placement.hpp"
#include "progress.hpp"
#include "ref.hpp"

std::vector<lean::Subject>& lean::all()
{
    static std::vector<Subject> v;
    return v;
}

// ---- what is watched
namespace watch
{
    volatile bool     on = false;
    volatile unsigned allocations = 0;
    // steps so far, of this thread only: there is one
    uint64_t steps = 0;
} // namespace watch

extern "C"
{
    void* __libc_malloc(size_t);
    void* __libc_calloc(size_t, size_t);
    void* __libc_realloc(void*, size_t);
    void* __libc_memalign(size_t, size_t);

    static inline void note()
    {
        if (watch::on)
            watch::allocations = watch::allocations + 1;
    }
    void* malloc(size_t n)
    {
        note();
        return __libc_malloc(n);
    }
    void* calloc(size_t k, size_t n)
    {
        note();
        return __libc_calloc(k, n);
    }
    void* realloc(void* p, size_t n)
    {
        note();
        return __libc_realloc(p, n);
    }
    void* memalign(size_t a, size_t n)
    {
        note();
        return __libc_memalign(a, n);
    }
    void* aligned_alloc(size_t a, size_t n)
    {
        note();
        return __libc_memalign(a, n);
    }
    int posix_memalign(void** p, size_t a, size_t n)
    {
        note();
        *p = __libc_memalign(a, n);
        return *p == nullptr;
    }

    __attribute__((used)) void __sanitizer_cov_trace_pc()
    {
        ++watch::steps;
    }
}

namespace
{
    using std::string;
    using std::string_view;
    using std::to_string;

    struct Config
    {
            string   progress = "/dev/null", monitors, input;
            uint64_t seed     = 1;
            long     first = 0, only = -1, hang = 10;
            size_t   rand = 60;
            bool     has_input = false, deep = false;
    } cfg;

    bool on(const char* m)
    {
        return ("," + cfg.monitors + ",").find(string(",") + m + ",") != string::npos;
    }

    // ---- a stack of its own, painted to see how much of it was used
    class Stack
    {
            static constexpr size_t size = 64 << 20, painted = 512 << 10;
            static constexpr uint64_t colour = 0x5ca1ab1e0ddba115;
            char*             base;
            ucontext_t        here, there;
            size_t            dirty = painted;
            static Stack*     self;
            size_t (*run)(const void*);
            const void* argument;
            size_t      answer;
            bool        thrown;

            static void entry()
            {
                try
                {
                    watch::on    = true;
                    self->answer = self->run(self->argument);
                    watch::on    = false;
                }
                catch (...)
                {
                    watch::on    = false;
                    self->thrown = true;
                }
            }

        public:
            struct Use
            {
                    size_t   stack;
                    unsigned allocations;
                    bool     thrown;
                    uint64_t steps;
                    size_t   answer;
            };

            Stack()
            {
                // nothing below it can be written to
                base = (char*) mmap(nullptr,
                                    size + 65536,
                                    PROT_NONE,
                                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,
                                    -1,
                                    0)
                       + 65536;
                mprotect(base, size, PROT_READ | PROT_WRITE);
                self = this;
            }

            template<typename F>
            Use call(const F& f)
            {
                auto* const top = (uint64_t*) (base + size);
                auto* const low = (uint64_t*) (base + size - painted);
                for (auto* p = (uint64_t*) (base + size - dirty); p < top; ++p)
                    *p = colour;
                run                 = [](const void* x) { return (*(const F*) x)(); };
                argument            = &f;
                thrown              = false;
                answer              = 0;
                watch::allocations  = 0;
                const uint64_t from = watch::steps;
                getcontext(&there);
                there.uc_stack.ss_sp   = base;
                there.uc_stack.ss_size = size;
                there.uc_link          = &here;
                makecontext(&there, &Stack::entry, 0);
                swapcontext(&here, &there);
                auto* p = low;
                while (p < top && *p == colour)
                    ++p;
                Use u {(size_t) ((char*) top - (char*) p), watch::allocations, thrown, watch::steps - from, answer};
                dirty = std::min(painted, u.stack + 64);
                return u;
            }
    };
    Stack* Stack::self;

    struct Model
    {
            std::vector<ref::Regex> regexes;
            ref::P                  toks = ref::mk(ref::K::ALT), seps = ref::mk(ref::K::ALT), root = ref::mk(ref::K::ALT);
            bool                    tokenizer;

            explicit Model(const lean::Subject& s)
            {
                for (auto& d: s.definitions)
                {
                    regexes.push_back(ref::Regex {d.pattern});
                    root->kids.push_back(regexes.back().ast());
                    (d.separator ? seps : toks)->kids.push_back(regexes.back().ast());
                }
                tokenizer = s.definitions.size() > 1;
            }
            void append(string& s, inputs::rng_t& rng) const
            {
                if (tokenizer && !seps->kids.empty() && rng() % 8)
                    inputs::sample(seps, rng, s, 0);
                inputs::sample(toks, rng, s, 0);
            }
    };

    // How many times a bounded part may be done over, whatever the text
    double weight(const ref::P& n)
    {
        double w = 1;
        for (auto& k: n->kids)
            w = n->k == ref::K::ALT ? w + weight(k) : w * weight(k);
        if (n->k == ref::K::REP)
            w *= n->mx > 8 ? 2 : n->mx + 1;
        if (n->k == ref::K::SET)
            w = 1;
        return std::min(w, 1e9);
    }

    void run_case(const lean::Subject& t, long index)
    {
        progress::on_case(index);
        std::unique_ptr<Model> m;
        try
        {
            m = std::make_unique<Model>(t);
        }
        catch (const ref::unsupported& e)
        {
            printf("U\t%ld\t%s\t%s\n", index, progress::hex(t.id).c_str(), e.what());
            return;
        }
        const bool    resources = on("resources"), work = on("work");
        std::seed_seq sq {(uint32_t) cfg.seed, (uint32_t) std::hash<string_view> {}(t.id)};
        inputs::rng_t rng {sq};
        const string  found = inputs::alphabet(m->root, rng, 6);
        const string  alpha = found.empty() ? string("a") : found;
        // The exponent of the worst growth of the work, less one: repetitions that are not of one byte
        // are matched again when one is given back, and a tokenizer may search after every token
        const int     d     = inputs::degree(m->root, true) + (m->tokenizer ? 1 : 0);

        // ---- sizes that can be afforded: small, and the same text again and again
        size_t sizes[3] = {1000, 4000, 16000};
        while (d > 0)
        {
            double c = 1;
            for (int k = 0; k <= d; ++k)
                c *= (double) sizes[2];
            if (c <= (cfg.deep ? 3e8 : 3e7) || sizes[0] <= 12)
                break;
            for (auto& s: sizes)
                s = s * 3 / 4;
        }
        const double times = (double) sizes[2] / (double) sizes[0];

        struct Text
        {
                string text;
                int    size; // 0, 1, 2
        };
        std::vector<Text> in;
        // a violation is one of growth, or of a short text: all of them are run again for a replay
        {
            auto grow = [&](const string& unit) {
                if (unit.empty())
                    return;
                for (int k = 0; k < 3; ++k)
                {
                    string s;
                    while (s.size() < sizes[k])
                        s += unit;
                    s.resize(sizes[k]);
                    in.push_back({s, k});
                }
            };
            for (size_t k = 0; k < alpha.size() && k < 5; ++k)
                grow(string(1, alpha[k]));
            for (int k = 0; k < 6; ++k)
            {
                // of the language, again and again, whole or damaged
                string s;
                for (int j = 0; j < 5 && s.size() < (size_t) k + 1; ++j)
                    m->append(s, rng);
                if (k % 3 == 1)
                    s.push_back(alpha[rng() % alpha.size()]);
                if (k % 3 == 2 && !s.empty())
                    s.pop_back();
                grow(s);
            }
            for (int k = 0; k < 4; ++k)
            {
                // long ones, that are not a repetition
                string s;
                while (s.size() < sizes[0])
                {
                    inputs::limit = s.size() + 60;
                    const size_t before = s.size();
                    if (k % 2)
                        s += inputs::random_one(m->root, alpha, rng, 40);
                    else
                        m->append(s, rng);
                    if (s.size() == before)
                        s.push_back(alpha[rng() % alpha.size()]);
                }
                inputs::limit = 60;
                s.resize(sizes[0]);
                grow(s);
            }
            {
                // one match, at the end only
                string s;
                m->append(s, rng);
                for (int k = 0; k < 3; ++k)
                    in.push_back({string(sizes[k], alpha.back()) + s, k});
            }
            if (resources)
                for (size_t k = 0; k < cfg.rand; ++k)
                    in.push_back({inputs::random_one(m->root, alpha, rng, 60), 0});
        }

        static placement::Arena arena;
        static Stack            stack;
        long                    evaluations = 0, nontrivial = 0, reported = 0, compared = 0;
        std::set<uint64_t>      outcomes;
        uint64_t                most_steps = 0;
        size_t                  deepest    = 0;
        auto violation = [&](const char* kind, const string& input, const string& g, const string& w) {
            if (++reported <= 3)
            {
                printf("V\t%s\t%ld\t%s\t%s\t%s\t%s\n",
                       kind,
                       index,
                       progress::hex(t.id).c_str(),
                       progress::hex(string_view {input}.substr(0, 2000)).c_str(),
                       progress::field(g).c_str(),
                       progress::field(w).c_str());
                fflush(stdout);
            }
        };
        if (resources && t.throwing != nullptr)
            violation("noexcept", "", string(t.throwing) + " is not noexcept", "everything is");

        struct
        {
                size_t   stack = 0;
                double   steps = 0; // the most, over what the exponent foresees
                uint64_t most  = 0;
        } small[3]; // of searches, of iterations, of searches that find something where the text begins

        for (int round = 0; round < 3; ++round)
            for (size_t n = 0; n < in.size(); ++n)
            {
                // the small ones are the measure of the others
                if (in[n].size != round)
                    continue;
                // more of the same could take for ever
                if (reported >= 3)
                    break;
                const string& text = in[n].text;
                progress::on_input(text);
                const string_view s = n % 2 ? arena.before_guard(text) : arena.after_guard(text);
                for (int op = 0; op < 2; ++op)
                {
                    // once more than there can be matches
                    const auto u = op == 0 ? stack.call([&] { return t.search(s); })
                                           : stack.call([&] { return t.iterate(s, text.size() + 2); });
                    ++evaluations;
                    nontrivial += u.answer > 1;
                    outcomes.insert(u.answer);
                    most_steps      = std::max(most_steps, u.steps);
                    deepest         = std::max(deepest, u.stack);
                    const string of = (op == 0 ? "search in " : "iteration over ") + to_string(text.size()) + " bytes: ";
                    if (resources)
                    {
                        if (u.allocations > 0)
                            violation("heap", text, of + to_string(u.allocations) + " allocations", "none");
                        if (u.thrown)
                            violation("exception", text, of + "an exception was thrown", "none");
                        if (round == 0)
                            small[op].stack = std::max(small[op].stack, u.stack);
                        else
                        {
                            ++compared;
                            if (u.stack > small[op].stack + 6000 + 4 * (size_t) times)
                                violation("stack",
                                          text,
                                          of + to_string(u.stack) + " bytes of stack",
                                          "about the " + to_string(small[op].stack) + " of short texts");
                        }
                    }
                    // what is found at once takes no other attempts: one exponent less
                    for (int at = 0; work && at < (op == 0 && t.at_once != nullptr && t.at_once(s) ? 2 : 1); ++at)
                    {
                        auto&     of_small = small[at == 0 ? op : 2];
                        const int exponent = d + 1 - at;
                        double    expected = 1;
                        for (int k = 0; k < exponent; ++k)
                            expected *= (double) text.size() + 8;
                        const double ratio = (double) u.steps / expected;
                        if (round == 0)
                        {
                            of_small.steps = std::max(of_small.steps, ratio);
                            of_small.most  = std::max(of_small.most, u.steps);
                        }
                        else if (of_small.most > 0)
                        {
                            ++compared;
                            // both a faster growth, and more than what the pattern can need
                            if (ratio > 2 * of_small.steps && ratio > 40 * (double) t.id.size() * weight(m->root))
                                violation("growth",
                                          text,
                                          of + to_string(u.steps) + " steps, " + to_string(of_small.most) + " at most on "
                                              + to_string(sizes[0]) + " bytes",
                                          "growth with exponent " + to_string(exponent) + " at most");
                        }
                    }
                }
            }
        printf("K\t%ld\t%s\t%ld\t%ld\t%ld\t0\t0\t%zu\t%s -> %zu bytes of stack, %lu steps, exponent %d\n",
               index,
               progress::hex(t.id).c_str(),
               evaluations,
               nontrivial,
               compared,
               outcomes.size(),
               progress::hex("texts up to " + to_string(sizes[2]) + " bytes").c_str(),
               deepest,
               (unsigned long) most_steps,
               d + 1);
        fflush(stdout);
    }
} // namespace

int main(int argc, char** argv)
{
    for (int i = 1; i < argc; ++i)
    {
        const string a = argv[i];
        auto         v = [&]() -> string { return argv[++i]; };
        if (a == "--progress")
            cfg.progress = v();
        else if (a == "--seed")
            cfg.seed = std::stoull(v());
        else if (a == "--first")
            cfg.first = std::stol(v());
        else if (a == "--only")
            cfg.only = std::stol(v());
        else if (a == "--rand")
            cfg.rand = std::stoul(v());
        else if (a == "--deep")
            cfg.deep = true;
        else if (a == "--monitors")
            cfg.monitors = v();
        else if (a == "--hang")
            cfg.hang = std::stol(v());
        else if (a == "--input")
        {
            cfg.input     = progress::unhex(v());
            cfg.has_input = true;
        }
        else
            return 79;
    }
    progress::start(cfg.progress.c_str(), cfg.hang);
    {
        // signals take nothing of the watched stack
        static char other[1 << 16];
        stack_t     ss {};
        ss.ss_sp   = other;
        ss.ss_size = sizeof(other);
        sigaltstack(&ss, nullptr);
        struct sigaction sa {};
        sa.sa_handler = progress::on_tick;
        sa.sa_flags   = SA_ONSTACK;
        sigaction(SIGVTALRM, &sa, nullptr);
    }
    auto& all = lean::all();
    for (long k = cfg.first; k < (long) all.size(); ++k)
        if (cfg.only < 0 || cfg.only == k)
            run_case(all[k], k);
    printf("END\t%zu\n", all.size());
    fflush(stdout);
    return 0;
}
