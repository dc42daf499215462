// Many threads use the same matchers on the same bytes (built with -fsanitize=thread); afterwards
// one thread does the same work and the answers are compared.
#include <algorithm>
#include <atomic>
#include <barrier>
#include <cstdio>
#include <memory>
#include <string>
#include <thread>

#include "inputs.hpp"
#include "probe.hpp"
#include "progress.hpp"
#include "ref.hpp"
#include "tok_probe.hpp"

std::vector<probe::Regex>& probe::all()
{
    static std::vector<Regex> v;
    return v;
}

std::vector<tok::Tokenizer>& tok::all()
{
    static std::vector<Tokenizer> v;
    return v;
}

namespace
{
    using std::string;
    using std::string_view;

    // one of them is there
    struct Job
    {
            const probe::Regex*   r;
            const tok::Tokenizer* t;
            long                  index;
            string                text;
    };

    string tokens(const Job& j)
    {
        string                  out;
        std::vector<tok::Token> got;
        for (int k = 0; k < 2; ++k)
        {
            const char* fault = nullptr;
            if (k == 0)
                j.t->range(j.text, got, j.text.size() + 2);
            else
                fault = j.t->manual(j.text, got, j.text.size() + 2);
            for (auto& [type, v]: got)
                out += std::to_string(type) + ":" + std::to_string(v.data() - j.text.data()) + "+"
                       + std::to_string(v.size()) + " ";
            out += fault ? fault : "; ";
        }
        return out;
    }

    // the answers of one thread, as offsets
    string answer(const Job& j)
    {
        if (j.t != nullptr)
            return tokens(j);
        string out;
        auto   put = [&](string_view v) {
            out += v.empty() ? string("e ")
                               : std::to_string(v.data() - j.text.data()) + "+" + std::to_string(v.size()) + " ";
        };
        probe::Res o;
        j.r->search(j.text, o);
        out += o.ok ? "Y " : "N ";
        put(o.whole);
        for (auto g: o.g)
            put(g);
        if (o.fault)
            out += o.fault;
        if (j.r->iterate)
        {
            std::vector<probe::Res> seq;
            j.r->iterate(j.text, seq, j.text.size() + 3);
            for (auto& m: seq)
            {
                out += "; ";
                put(m.whole);
                for (auto g: m.g)
                    put(g);
                if (m.fault)
                    out += m.fault;
            }
            std::vector<string_view> views;
            j.r->range(j.text, views, j.text.size() + 3);
            out += "| ";
            for (auto v: views)
                put(v);
        }
        if (j.r->expression)
            out += std::to_string(std::hash<string_view> {}(j.r->expression()));
        return out;
    }
} // namespace

int main(int argc, char** argv)
{
    string   prog = "/dev/null";
    uint64_t seed = 1;
    size_t   rand = 40;
    long     hang = 600;
    unsigned threads = 8, rounds = 2;
    for (int i = 1; i < argc; ++i)
    {
        const string a = argv[i];
        auto         v = [&]() -> string { return argv[++i]; };
        if (a == "--progress")
            prog = v();
        else if (a == "--seed")
            seed = std::stoull(v());
        else if (a == "--rand")
            rand = std::stoul(v());
        else if (a == "--threads")
            threads = std::stoul(v());
        else if (a == "--rounds")
            rounds = std::stoul(v());
        else
            ++i;
    }
    progress::start(prog.c_str(), hang);

    auto&            all = probe::all();
    std::vector<Job> jobs;
    for (size_t k = 0; k < all.size(); ++k)
    {
        try
        {
            ref::Regex    m {all[k].pattern};
            std::seed_seq sq {(uint32_t) seed, (uint32_t) std::hash<string_view> {}(all[k].pattern)};
            inputs::rng_t rng {sq};
            const string  alpha = inputs::alphabet(m.ast(), rng, 6);
            for (size_t i = 0; i < rand; ++i)
                jobs.push_back({&all[k], nullptr, (long) k, inputs::random_one(m.ast(), alpha, rng, 40)});
        }
        catch (const ref::unsupported&)
        {
        }
    }

    const auto& tokenizers = tok::all();
    for (size_t k = 0; k < tokenizers.size(); ++k)
    {
        try
        {
            auto toks = ref::mk(ref::K::ALT), seps = ref::mk(ref::K::ALT);
            for (auto& d: tokenizers[k].definitions)
                (d.separator ? seps : toks)->kids.push_back(ref::Regex {d.pattern}.ast());
            std::seed_seq sq {(uint32_t) seed, (uint32_t) k};
            inputs::rng_t rng {sq};
            for (size_t i = 0; i < rand; ++i)
            {
                string s;
                for (size_t n = rng() % 6; n > 0; --n)
                {
                    inputs::sample(toks, rng, s, 0);
                    if (!seps->kids.empty() && rng() % 8)
                        inputs::sample(seps, rng, s, 0);
                }
                jobs.push_back({nullptr, &tokenizers[k], (long) (all.size() + k), s});
            }
        }
        catch (const ref::unsupported&)
        {
        }
    }

    // how often two threads were inside of the same pattern: what was really overlapped
    auto                                    busy = std::make_unique<std::atomic<int>[]>(all.size() + tokenizers.size());
    std::atomic<long>                       overlaps {0}, operations {0};
    std::vector<std::vector<string>>        got(threads, std::vector<string>(jobs.size()));
    long                                    differences = 0, interleavings = 0;
    for (unsigned round = 0; round < rounds; ++round)
    {
        std::barrier             start(threads);
        std::vector<std::thread> pool;
        for (unsigned t = 0; t < threads; ++t)
            pool.emplace_back([&, t] {
                inputs::rng_t       rng {seed * 1000 + round * 100 + t};
                std::vector<size_t> order(jobs.size());
                for (size_t i = 0; i < order.size(); ++i)
                    order[i] = i;
                // neighbours stay near, so that threads meet on the same pattern
                for (size_t i = 0; i + 1 < order.size(); ++i)
                    std::swap(order[i], order[i + rng() % std::min<size_t>(order.size() - i, 12)]);
                long mine = 0, met = 0;
                start.arrive_and_wait();
                for (size_t i: order)
                {
                    auto& b = busy[jobs[i].index];
                    if (b.fetch_add(1, std::memory_order_relaxed) > 0)
                        ++met;
                    got[t][i] = answer(jobs[i]);
                    b.fetch_sub(1, std::memory_order_relaxed);
                    ++mine;
                    if (rng() % 64 == 0)
                        std::this_thread::yield();
                }
                overlaps += met;
                operations += mine;
            });
        for (auto& t: pool)
            t.join();
        ++interleavings;
        for (size_t i = 0; i < jobs.size(); ++i)
        {
            const string alone = answer(jobs[i]);
            for (unsigned t = 0; t < threads; ++t)
                if (got[t][i] != alone && ++differences < 5)
                    printf("V\tconcurrent\t%ld\t%s\t%s\t%s\t%s\n",
                           jobs[i].index,
                           progress::hex(jobs[i].r ? jobs[i].r->pattern : jobs[i].t->definitions[0].pattern).c_str(),
                           progress::hex(jobs[i].text).c_str(),
                           progress::field(got[t][i]).c_str(),
                           progress::field(alone).c_str());
        }
    }
    printf("K\t0\t%s\t%ld\t%ld\t%zu\t0\t0\t%ld\t\n", "", operations.load(), overlaps.load(), jobs.size(), interleavings);
        fflush(stdout);
    printf("END\t%zu\n", all.size() + tokenizers.size());
    fflush(stdout);
}
