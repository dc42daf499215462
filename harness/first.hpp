// What the bytes a match can begin with are, by the tree of the model; and what the optimizer is documented to do.
#pragma once
#include "ref.hpp"

#include <string>
#include <vector>

namespace ref
{
    struct First
    {
            set256 set;
            bool        nullable = false;
            bool        plain    = true; // no anchor, no empty set, no {0}
    };

    inline First first(const P& n)
    {
        First f;
        switch (n->k)
        {
            case K::SET:
                f.set   = n->set;
                f.plain = n->set.any();
                break;
            case K::SEQ:
                f.nullable = true;
                for (auto& k: n->kids)
                {
                    auto x = first(k);
                    if (f.nullable)
                        f.set |= x.set;
                    f.nullable = f.nullable && x.nullable;
                    f.plain    = f.plain && x.plain;
                }
                break;
            case K::ALT:
                for (auto& k: n->kids)
                {
                    auto x = first(k);
                    f.set |= x.set;
                    f.nullable = f.nullable || x.nullable;
                    f.plain    = f.plain && x.plain;
                }
                break;
            case K::CAP:
            case K::GRP:
                f = first(n->kids[0]);
                break;
            case K::REP:
                f          = first(n->kids[0]);
                f.nullable = f.nullable || n->mn == 0;
                f.plain    = f.plain && n->mx != 0;
                break;
            default:
                if (n->k == K::EOL)
                    f.set = one('\n');
                f.nullable = true;
                f.plain    = false;
        }
        return f;
    }

    // A quantifier, as written or as reported
    struct Quantifier
    {
            unsigned mn, mx;
            Mode     mode;
            bool     removable; // documented to become possessive

            std::string show() const
            {
                return '{' + std::to_string(mn) + ',' + (mx == ~0u ? std::string {} : std::to_string(mx)) + '}'
                       + (mode == Mode::LAZY   ? "?"
                          : mode == Mode::POSS ? "+"
                                               : "");
            }
    };

    // In the order in which they are written.  A greedy one, or a lazy one that is not optional, is removable
    // when its body cannot be empty, something that cannot be either comes after it in its sequence, and no byte
    // begins both.  Inside of groups nothing that comes later, there or around, may begin as the body does.
    inline void quantifiers(const P& n, std::vector<Quantifier>& out, bool top = true, const set256& around = {})
    {
        if (n->k == K::SEQ)
        {
            for (size_t i = 0; i < n->kids.size(); ++i)
            {
                const auto& k = n->kids[i];
                First       rest;
                set256      later = around;
                rest.nullable     = true;
                for (size_t j = i + 1; j < n->kids.size(); ++j)
                {
                    auto x = first(n->kids[j]);
                    later |= x.set;
                    if (rest.nullable && rest.plain)
                    {
                        rest.set |= x.set;
                        rest.nullable = x.nullable;
                        rest.plain    = x.plain;
                    }
                }
                if (k->k != K::REP)
                {
                    quantifiers(k, out, false, later);
                    continue;
                }
                auto body = first(k->kids[0]);
                out.push_back({k->mn,
                               k->mx,
                               k->mode,
                               k->mn != k->mx && body.plain && !body.nullable && rest.plain && !rest.nullable
                                   && (body.set & (top ? rest.set : later)).none()
                                   && (k->mode == Mode::GREEDY || (k->mode == Mode::LAZY && k->mn > 0))});
                quantifiers(k->kids[0], out, false, later);
            }
            return;
        }
        if (n->k == K::REP)
            out.push_back({n->mn, n->mx, n->mode, false});
        for (auto& k: n->kids)
            quantifiers(k, out, top && n->k == K::ALT, around);
    }
} // namespace ref
