// Workload generator: inputs for one pattern, derived from the model's parse of it.
#pragma once
#include <algorithm>
#include <map>
#include <random>
#include <set>
#include <string>
#include <unordered_set>

#include "ref.hpp"

namespace inputs
{
    using rng_t = std::mt19937_64;

    // how long samples may grow; over 60, repetitions go to their bounds
    inline size_t limit = 60;

    inline void sets_of(const ref::P& n, std::vector<ref::set256>& out, bool& anchors)
    {
        if (n->k == ref::K::SET)
            out.push_back(n->set);
        if (n->k == ref::K::BOL || n->k == ref::K::EOL)
            anchors = true;
        for (auto& k: n->kids)
            sets_of(k, out, anchors);
    }

    // One byte (sometimes two) per class of bytes the pattern cannot tell apart.
    inline std::string alphabet(const ref::P& root, rng_t& rng, size_t cap)
    {
        std::vector<ref::set256> sets;
        bool                     anchors = false;
        sets_of(root, sets, anchors);
        std::sort(sets.begin(), sets.end(), [](auto& a, auto& b) { return a.to_string() < b.to_string(); });
        sets.erase(std::unique(sets.begin(), sets.end()), sets.end());
        if (anchors)
            sets.push_back(ref::one('\n'));

        std::map<std::string, std::string> classes;
        for (int c = 0; c < 256; ++c)
        {
            std::string key;
            for (auto& s: sets)
                key.push_back(s.test(c) ? '1' : '0');
            classes[key].push_back((char) c);
        }
        // the classes few sets tell apart last, so that the interesting ones survive the cap
        std::vector<std::pair<size_t, std::string>> v;
        for (auto& [k, m]: classes)
            v.push_back({std::count(k.begin(), k.end(), '1'), m});
        std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first > b.first; });
        // always keep the class in no set (a byte that never matches)
        if (v.size() > cap)
        {
            auto outside = v.back();
            std::shuffle(v.begin(), v.end() - 1, rng);
            v.resize(cap - 1);
            v.push_back(outside);
        }
        std::string out;
        for (auto& [n, m]: v)
        {
            std::string pretty;
            for (char c: m)
                if (std::isalnum((unsigned char) c))
                    pretty.push_back(c);
            // half of the picks are printable, the others reach the whole byte range
            const auto& from = !pretty.empty() && rng() % 2 ? pretty : m;
            out.push_back(from[rng() % from.size()]);
        }
        return out;
    }

    inline void sample(const ref::P& n, rng_t& rng, std::string& out, int depth)
    {
        if (out.size() > limit)
            return;
        switch (n->k)
        {
            case ref::K::SET:
                {
                    if (n->set.none())
                        return;
                    std::string pretty, all;
                    for (int c = 0; c < 256; ++c)
                        if (n->set.test(c))
                        {
                            all.push_back((char) c);
                            if (std::isalnum(c))
                                pretty.push_back((char) c);
                        }
                    const auto& from = !pretty.empty() && rng() % 4 ? pretty : all;
                    out.push_back(from[rng() % from.size()]);
                    break;
                }
            case ref::K::ALT:
                sample(n->kids[rng() % n->kids.size()], rng, out, depth + 1);
                break;
            case ref::K::REP:
                {
                    unsigned k = n->mn;
                    if (limit > 60 && rng() % 4)
                    {
                        const unsigned far[] = {0, 1, 2, 9, 10, 63, 100, 127, 128, 254, 255, 256, 257, 300};
                        if (n->mx > 4000)
                            k += far[rng() % 14];
                        else
                            switch (rng() % 5)
                            {
                                case 0:
                                    k = n->mx;
                                    break;
                                case 1:
                                    k = n->mx + 1;
                                    break;
                                case 2:
                                    k = n->mn > 0 ? n->mn - 1 : 0;
                                    break;
                                case 3:
                                    k = n->mx > 0 ? n->mx - 1 : 0;
                                    break;
                                default:
                                    k += rng() % (n->mx - n->mn + 1);
                            }
                    }
                    else if (n->mx > n->mn)
                        k += rng() % std::min<uint64_t>((uint64_t) n->mx - n->mn + 1, rng() % 6 ? 3 : 9);
                    for (unsigned i = 0; i < k && out.size() <= limit; ++i)
                        sample(n->kids[0], rng, out, depth + 1);
                    break;
                }
            case ref::K::BOL:
                if (rng() % 3 == 0)
                    out.push_back('\n');
                break;
            case ref::K::EOL:
                if (rng() % 3 == 0)
                    out.push_back('\n');
                break;
            default:
                for (auto& k: n->kids)
                    sample(k, rng, out, depth + 1);
        }
    }

    // How the time of a backtracking search may grow with the input: the exponent, roughly.
    // (What is written possessive is never given back, so that nothing is matched again: `strict` knows.)
    inline int degree(const ref::P& n, bool strict = false)
    {
        int d = 0;
        for (auto& k: n->kids)
            d = n->k == ref::K::ALT ? std::max(d, degree(k, strict)) : d + degree(k, strict);
        if (n->k == ref::K::REP && n->mx > 8)
            d += n->kids[0]->k != ref::K::SET && !(strict && n->mode == ref::Mode::POSS) ? 2 : 1;
        return d;
    }
    inline bool affordable(const ref::P& n, size_t size)
    {
        double cost = 1;
        for (int d = degree(n); d >= 0; --d)
            cost *= (double) size;
        return cost <= 1e8;
    }

    // The length of a match that takes all repetitions to their bounds
    inline uint64_t extent(const ref::P& n)
    {
        if (n->k == ref::K::SET)
            return 1;
        uint64_t l = 0;
        for (auto& k: n->kids)
            l = n->k == ref::K::ALT ? std::max(l, extent(k)) : std::min<uint64_t>(l + extent(k), 1 << 30);
        if (n->k == ref::K::REP)
            l *= n->mx == ~0u ? n->mn + 2 : n->mx;
        return std::min<uint64_t>(l, 1 << 30);
    }

    // Every string over the alphabet, shortest first, at most `max` of them.
    inline std::vector<std::string> exhaustive(const std::string& alpha, size_t max, size_t maxlen)
    {
        std::vector<std::string> out {""};
        size_t                   lo = 0;
        for (size_t l = 1; l <= maxlen; ++l)
        {
            size_t hi = out.size();
            if (hi + (hi - lo) * alpha.size() > max && l > 1)
                break;
            for (size_t i = lo; i < hi; ++i)
                for (char c: alpha)
                    out.push_back(out[i] + c);
            lo = hi;
        }
        return out;
    }

    // A string of the language, damaged.
    inline std::string random_one(const ref::P& root, const std::string& alpha, rng_t& rng, size_t maxlen)
    {
        std::string s;
        int         parts = 1 + rng() % 3;
        auto        noise = [&](unsigned n) {
            for (unsigned i = 0; i < n; ++i)
                s.push_back(rng() % 8 ? alpha[rng() % alpha.size()] : (char) rng());
        };
        noise(rng() % 4);
        for (int i = 0; i < parts; ++i)
        {
            sample(root, rng, s, 0);
            if (rng() % 2)
                noise(rng() % 3);
        }
        unsigned edits = rng() % 3;
        for (unsigned i = 0; i < edits && !s.empty(); ++i)
        {
            size_t at = rng() % s.size();
            switch (rng() % 4)
            {
                case 0:
                    s.erase(at, 1);
                    break;
                case 1:
                    s.insert(at, 1, alpha[rng() % alpha.size()]);
                    break;
                case 2:
                    s[at] = alpha[rng() % alpha.size()];
                    break;
                case 3:
                    s.resize(at);
                    break;
            }
        }
        if (s.size() > maxlen)
            s.resize(maxlen);
        return s;
    }
} // namespace inputs
