// Reference model of the e-regex dialect, written from README.md and independent of
// /repo/src: a runtime parser to a small AST, compiled to a backtracking program with
// Perl leftmost-first semantics.  It is the oracle the monitors compare executions with.
#pragma once
#include <algorithm>
#include <bitset>
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace ref
{
    using set256 = std::bitset<256>;

    enum class K
    {
        SET,
        SEQ,
        ALT,
        CAP,
        GRP,
        REP,
        BOL,
        EOL
    };
    enum class Mode
    {
        GREEDY,
        LAZY,
        POSS
    };

    struct Node
    {
            K                                  k;
            set256                             set {};
            std::vector<std::shared_ptr<Node>> kids {};
            int                                cap = -1;
            unsigned                           mn = 0, mx = 0; // mx==~0u: unbounded
            Mode                               mode = Mode::GREEDY;
    };
    using P = std::shared_ptr<Node>;

    struct unsupported : std::runtime_error
    {
            using std::runtime_error::runtime_error;
    };

    inline P mk(K k)
    {
        auto n = std::make_shared<Node>();
        n->k   = k;
        return n;
    }

    inline set256 range(unsigned a, unsigned b)
    {
        set256 s;
        for (unsigned c = a; c <= b; ++c)
            s.set(c);
        return s;
    }
    inline set256 one(unsigned char c)
    {
        set256 s;
        s.set(c);
        return s;
    }
    inline set256 digits()
    {
        return range('0', '9');
    }
    inline set256 words()
    {
        return range('0', '9') | range('a', 'z') | range('A', 'Z') | one('_');
    }
    inline set256 spaces()
    {
        return one('\t') | one('\n') | one('\f') | one('\r') | one(' ');
    }

    inline set256 escape_class(char c)
    {
        switch (c)
        {
            case 'd':
                return digits();
            case 'D':
                return ~digits();
            case 'w':
                return words();
            case 'W':
                return ~words();
            case 's':
                return spaces();
            case 'S':
                return ~spaces();
            case 'n':
                return one('\n');
            case 'N':
                return ~one('\n');
            case 'r':
                return one('\r');
            case 't':
                return one('\t');
            case 'f':
                return one('\f');
            case 'a':
                return one(0x07);
            case 'e':
                return one(0x1b);
            default:
                return one((unsigned char) c);
        }
    }

    struct Parser
    {
            std::string_view p;
            size_t           i    = 0;
            int              caps = 0;

            bool more() const
            {
                return i < p.size();
            }
            static bool hexd(char c)
            {
                return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'F')
                       || (c >= 'a' && c <= 'f');
            }
            static unsigned hexv(char c)
            {
                return c <= '9' ? c - '0' : (c | 0x20) - 'a' + 10;
            }
            static bool octd(char c)
            {
                return c >= '0' && c <= '7';
            }

            P alt()
            {
                std::vector<P> br;
                br.push_back(seq());
                while (more() && p[i] == '|')
                {
                    ++i;
                    br.push_back(seq());
                }
                if (br.size() == 1)
                    return br[0];
                auto n  = mk(K::ALT);
                n->kids = br;
                return n;
            }

            P seq()
            {
                auto n     = mk(K::SEQ);
                bool first = true;
                while (more() && p[i] != '|' && p[i] != ')')
                {
                    P a = atom(first);
                    first = false;
                    quant(a);
                    n->kids.push_back(a);
                }
                return n;
            }

            P atom(bool first)
            {
                char c = p[i];
                if (c == '^' && first)
                {
                    ++i;
                    return mk(K::BOL);
                }
                if (c == '$'
                    && (i + 1 == p.size() || p[i + 1] == '|' || p[i + 1] == ')'))
                {
                    ++i;
                    return mk(K::EOL);
                }
                if (c == '(')
                {
                    ++i;
                    P n;
                    if (p.substr(i, 2) == "?:")
                    {
                        i += 2;
                        n = mk(K::GRP);
                    }
                    else
                    {
                        n      = mk(K::CAP);
                        n->cap = caps++;
                    }
                    n->kids.push_back(alt());
                    if (!more() || p[i] != ')')
                        throw unsupported("unbalanced");
                    ++i;
                    return n;
                }
                if (c == '[')
                    return bracket();
                if (c == '.')
                {
                    ++i;
                    auto n = mk(K::SET);
                    n->set = ~one('\n');
                    return n;
                }
                if (c == '\\')
                    return esc();
                ++i;
                auto n = mk(K::SET);
                n->set = one((unsigned char) c);
                return n;
            }

            P bytes(const std::string& b)
            {
                if (b.size() == 1)
                {
                    auto n = mk(K::SET);
                    n->set = one((unsigned char) b[0]);
                    return n;
                }
                auto g = mk(K::GRP);
                auto s = mk(K::SEQ);
                for (char c: b)
                {
                    auto n = mk(K::SET);
                    n->set = one((unsigned char) c);
                    s->kids.push_back(n);
                }
                g->kids.push_back(s);
                return g;
            }

            P esc()
            {
                ++i;
                if (!more())
                    throw unsupported("trailing backslash");
                char c = p[i++];
                if (c == 'x')
                {
                    if (more() && p[i] == '{')
                    {
                        auto e = p.find('}', i);
                        if (e == p.npos)
                            throw unsupported("hex brace");
                        auto d = p.substr(i + 1, e - i - 1);
                        i      = e + 1;
                        std::string b;
                        if (d.empty())
                            throw unsupported("hex empty");
                        if (d.size() % 2)
                        {
                            if (d.size() != 1)
                                throw unsupported("odd hex");
                            b.push_back((char) hexv(d[0]));
                            return bytes(b);
                        }
                        for (size_t k = 0; k < d.size(); k += 2)
                            b.push_back((char) (hexv(d[k]) * 16 + hexv(d[k + 1])));
                        return bytes(b);
                    }
                    if (!more() || !hexd(p[i]))
                        throw unsupported("hex");
                    unsigned v = hexv(p[i++]);
                    if (more() && hexd(p[i]))
                        v = v * 16 + hexv(p[i++]);
                    return bytes(std::string(1, (char) v));
                }
                auto oct3 = [&]() {
                    unsigned v = 0;
                    for (int k = 0; k < 3; ++k)
                        v = v * 8 + (p[i++] - '0');
                    return bytes(std::string(1, (char) v));
                };
                if (c == 'o')
                {
                    if (more() && p[i] == '{')
                    {
                        auto e = p.find('}', i);
                        if (e == p.npos)
                            throw unsupported("oct brace");
                        auto d = p.substr(i + 1, e - i - 1);
                        i      = e + 1;
                        if (d.empty() || d.size() % 3)
                            throw unsupported("oct len");
                        std::string b;
                        for (size_t k = 0; k < d.size(); k += 3)
                            b.push_back((char) ((d[k] - '0') * 64 + (d[k + 1] - '0') * 8
                                                + (d[k + 2] - '0')));
                        return bytes(b);
                    }
                    if (i + 2 < p.size() && octd(p[i]) && octd(p[i + 1]) && octd(p[i + 2]))
                        return oct3();
                    throw unsupported("oct");
                }
                if (octd(c))
                {
                    if (i + 1 < p.size() && octd(p[i]) && octd(p[i + 1]))
                    {
                        --i;
                        return oct3();
                    }
                    throw unsupported("backreference");
                }
                auto n = mk(K::SET);
                n->set = escape_class(c);
                return n;
            }

            P bracket()
            {
                ++i;
                bool neg = false;
                if (more() && p[i] == '^')
                {
                    neg = true;
                    ++i;
                }
                set256 s;
                bool   any = false;
                while (more() && p[i] != ']')
                {
                    any = true;
                    if (p[i] == '\\')
                    {
                        if (i + 1 >= p.size())
                            throw unsupported("set esc");
                        char e = p[i + 1];
                        if (e == 'x' || e == 'o' || (e >= '0' && e <= '9'))
                            throw unsupported("numeric escape in set");
                        s |= escape_class(e);
                        i += 2;
                        continue;
                    }
                    if (i + 2 < p.size() && p[i + 1] == '-' && p[i + 2] != ']')
                    {
                        if (p[i + 2] == '\\')
                            throw unsupported("escaped range end");
                        unsigned a = (unsigned char) p[i], b = (unsigned char) p[i + 2];
                        if (a > b)
                            throw unsupported("range order");
                        s |= range(a, b);
                        i += 3;
                        continue;
                    }
                    s.set((unsigned char) p[i++]);
                }
                if (!more() || !any)
                    throw unsupported("set");
                ++i;
                auto n = mk(K::SET);
                n->set = neg ? ~s : s;
                return n;
            }

            unsigned number()
            {
                if (!more() || p[i] < '0' || p[i] > '9')
                    throw unsupported("brace number");
                uint64_t v = 0;
                while (more() && p[i] >= '0' && p[i] <= '9')
                    v = v * 10 + (p[i++] - '0');
                return (unsigned) v;
            }

            void quant(P& a)
            {
                if (!more())
                    return;
                unsigned mn, mx;
                char     c = p[i];
                if (c == '*')
                {
                    mn = 0;
                    mx = ~0u;
                    ++i;
                }
                else if (c == '+')
                {
                    mn = 1;
                    mx = ~0u;
                    ++i;
                }
                else if (c == '?')
                {
                    mn = 0;
                    mx = 1;
                    ++i;
                }
                else if (c == '{')
                {
                    ++i;
                    mn = mx = number();
                    if (more() && p[i] == ',')
                    {
                        ++i;
                        if (more() && p[i] == '}')
                            mx = ~0u;
                        else
                            mx = number();
                    }
                    if (!more() || p[i] != '}')
                        throw unsupported("brace");
                    ++i;
                }
                else
                    return;
                auto n  = mk(K::REP);
                n->mn   = mn;
                n->mx   = mx;
                n->mode = Mode::GREEDY;
                if (more() && p[i] == '?')
                {
                    n->mode = Mode::LAZY;
                    ++i;
                }
                else if (more() && p[i] == '+')
                {
                    n->mode = Mode::POSS;
                    ++i;
                }
                n->kids.push_back(a);
                a = n;
                if (more() && (p[i] == '*' || p[i] == '+' || p[i] == '?' || p[i] == '{'))
                    throw unsupported("stacked quantifier");
            }
    };

    // ---- program -------------------------------------------------------------
    enum class Op : uint8_t
    {
        SET,
        SPLIT, // try a then b
        JMP,
        SAVE,
        BOL,
        EOL,
        MARK,  // push current position in loop slot (empty-iteration check)
        CHK,   // fail the iteration if no progress since MARK
        ATOM,  // run sub-program a..; continue at b atomically
        LOOK,  // the sub-program at a has to match from here, nothing is consumed
        LCNT0, // counter := 0
        LCNT,  // counted loop step
        END
    };
    struct Ins
    {
            Op     op;
            int    a = 0, b = 0;
            int    set = -1;
    };

    struct Options
    {
            bool     atomic_groups = false; // groups are atomic: all of them, or those in the mask
            uint64_t atomic_mask   = ~0ull; // by the order in which they open
            bool     lookahead   = false; // what ends an atomic group gives back for what follows the group..
            bool     everywhere  = false; // ..also where the optimizer may drop that
            bool multiline_bol = true;
            bool eol_consumes  = true;
    };

    struct Match
    {
            bool                             ok = false;
            size_t                           b = 0, e = 0;
            std::vector<std::pair<int, int>> g; // -1,-1: unset
    };

    class Regex
    {
            std::vector<Ins>    prog;
            std::vector<set256> sets;
            int                 slots = 0;
            Options             opt;
            std::string         pat;
            P                   root;
            std::map<const Node*, int> ordinals;

            // What comes after something in its sequence
            struct Rest
            {
                    const Node* seq = nullptr;
                    size_t      at  = 0;

                    bool operator<(const Rest& o) const
                    {
                        return seq != o.seq ? seq < o.seq : at < o.at;
                    }
            };
            std::map<Rest, std::vector<int>> looks; // the instructions that need its program

            // What something may begin with
            static set256 begins(const P& n)
            {
                set256 s;
                switch (n->k)
                {
                    case K::SET:
                        s = n->set;
                        break;
                    case K::EOL:
                        s = one('\n');
                        break;
                    case K::BOL:
                        break;
                    case K::SEQ:
                        s = begins(n.get(), 0);
                        break;
                    default:
                        for (auto& k: n->kids)
                            s |= begins(k);
                }
                return s;
            }
            static set256 begins(const Node* seq, size_t at)
            {
                set256 s;
                for (; at < seq->kids.size(); ++at)
                {
                    s |= begins(seq->kids[at]);
                    if (!nullable(seq->kids[at]))
                        break;
                }
                return s;
            }

            // A repetition at the end of an atomic group gives back for what follows the group
            void look(const P& n, const Rest& rest)
            {
                if (rest.seq == nullptr || n->mode == Mode::POSS)
                    return;
                if (!opt.everywhere
                    && (n->mn == n->mx || (begins(n->kids[0]) & begins(rest.seq, rest.at)).none()))
                    return;
                looks[rest].push_back(emit(Op::LOOK));
            }

            bool atomic(const P& n)
            {
                if (!opt.atomic_groups)
                    return false;
                const int k = ordinals.emplace(n.get(), (int) ordinals.size()).first->second;
                return k > 63 || (opt.atomic_mask >> k & 1) != 0;
            }

            int emit(Op o, int a = 0, int b = 0)
            {
                prog.push_back({o, a, b, -1});
                return (int) prog.size() - 1;
            }

            void atomic_begin(int& at)
            {
                at = emit(Op::ATOM);
            }
            void atomic_end(int at)
            {
                emit(Op::END);
                prog[at].a = at + 1;
                prog[at].b = (int) prog.size();
            }

            static bool nullable(const P& n)
            {
                switch (n->k)
                {
                    case K::SET:
                        return false;
                    case K::BOL:
                    case K::EOL:
                        return true;
                    case K::SEQ:
                        for (auto& k: n->kids)
                            if (!nullable(k))
                                return false;
                        return true;
                    case K::ALT:
                        for (auto& k: n->kids)
                            if (nullable(k))
                                return true;
                        return false;
                    case K::CAP:
                    case K::GRP:
                        return nullable(n->kids[0]);
                    case K::REP:
                        return n->mn == 0 || nullable(n->kids[0]);
                }
                return true;
            }

            // instructions, about
            static uint64_t length(const P& n)
            {
                uint64_t l = 4;
                for (auto& k: n->kids)
                    l = std::min<uint64_t>(l + length(k), 1 << 30);
                if (n->k == K::SET)
                    return 2;
                if (n->k == K::REP)
                    l *= n->mx == ~0u ? std::max(1u, n->mn) : std::max(1u, n->mx);
                return std::min<uint64_t>(l, 1 << 30);
            }

            void rep_body(const P& n)
            {
                gen(n->kids[0], {});
            }

            void gen(const P& n, const Rest& rest)
            {
                switch (n->k)
                {
                    case K::SET:
                        {
                            int i       = emit(Op::SET);
                            prog[i].set = (int) sets.size();
                            sets.push_back(n->set);
                            break;
                        }
                    case K::SEQ:
                        gen(n.get(), 0, rest);
                        break;
                    case K::ALT:
                        {
                            std::vector<int> jmps;
                            for (size_t i = 0; i + 1 < n->kids.size(); ++i)
                            {
                                int s     = emit(Op::SPLIT);
                                prog[s].a = s + 1;
                                gen(n->kids[i], rest);
                                jmps.push_back(emit(Op::JMP));
                                prog[s].b = (int) prog.size();
                            }
                            gen(n->kids.back(), rest);
                            for (int j: jmps)
                                prog[j].a = (int) prog.size();
                            break;
                        }
                    case K::CAP:
                    case K::GRP:
                        {
                            int        at  = 0;
                            const bool atm = atomic(n);
                            if (atm)
                                atomic_begin(at);
                            if (n->cap >= 0)
                                emit(Op::SAVE, n->cap * 2);
                            gen(n->kids[0], rest);
                            if (n->cap >= 0)
                                emit(Op::SAVE, n->cap * 2 + 1);
                            if (atm)
                                atomic_end(at);
                            break;
                        }
                    case K::BOL:
                        emit(Op::BOL);
                        break;
                    case K::EOL:
                        emit(Op::EOL);
                        break;
                    case K::REP:
                        {
                            int at = 0;
                            if (n->mode == Mode::POSS)
                                atomic_begin(at);
                            bool     lazy = n->mode == Mode::LAZY;
                            unsigned mn = n->mn, mx = n->mx;
                            // no text is that long
                            if (mx > 1000000 && mn < 1000000 && !nullable(n->kids[0]))
                                mx = ~0u;
                            if ((uint64_t) mn * length(n->kids[0]) > 2000000
                                || (mx != ~0u && (uint64_t) mx * length(n->kids[0]) > 2000000))
                                throw unsupported("count too large for the model");
                            for (unsigned k = 0; k < mn; ++k)
                                rep_body(n);
                            auto split = [&]() { return emit(Op::SPLIT); };
                            auto setsplit = [&](int s, int in, int out) {
                                prog[s].a = lazy ? out : in;
                                prog[s].b = lazy ? in : out;
                            };
                            bool nul = nullable(n->kids[0]);
                            if (mx == ~0u)
                            {
                                int s    = split();
                                int slot = -1;
                                if (nul)
                                {
                                    slot = slots++;
                                    emit(Op::MARK, slot);
                                }
                                rep_body(n);
                                if (nul)
                                    emit(Op::CHK, slot);
                                emit(Op::JMP, s);
                                setsplit(s, s + 1, (int) prog.size());
                            }
                            else
                            {
                                std::vector<int> ss;
                                for (unsigned k = mn; k < mx; ++k)
                                {
                                    ss.push_back(split());
                                    rep_body(n);
                                }
                                for (int s: ss)
                                    setsplit(s, s + 1, (int) prog.size());
                            }
                            if (n->mode == Mode::POSS)
                                atomic_end(at);
                            look(n, rest);
                            break;
                        }
                }
            }

            // A sequence from `at` on
            void gen(const Node* seq, size_t at, const Rest& rest)
            {
                for (; at < seq->kids.size(); ++at)
                {
                    const P& k = seq->kids[at];
                    if (at + 1 == seq->kids.size())
                        gen(k, rest);
                    else if (opt.lookahead && (k->k == K::CAP || k->k == K::GRP) && atomic(k))
                        gen(k, {seq, at + 1});
                    else
                        gen(k, {});
                }
            }

            // What has to be looked for
            void gen_looks()
            {
                std::map<Rest, int> made;
                while (!looks.empty())
                {
                    const auto [rest, from] = *looks.begin();
                    looks.erase(looks.begin());
                    auto [m, fresh] = made.emplace(rest, (int) prog.size());
                    if (fresh)
                    {
                        gen(rest.seq, rest.at, {});
                        emit(Op::END);
                    }
                    for (int i: from)
                        prog[i].a = m->second;
                }
            }

        public:
            int      caps = 0;
            uint64_t steps_left = 0;

            explicit Regex(std::string_view pattern, Options o = {})
                : opt {o}, pat {pattern}
            {
                Parser ps {pat};
                root = ps.alt();
                if (ps.i != pat.size())
                    throw unsupported("trailing )");
                caps = ps.caps;
                gen(root, {});
                emit(Op::END);
                gen_looks();
            }

            const P& ast() const
            {
                return root;
            }

            int groups() const // opened groups, as far as the atomic ones are counted
            {
                return (int) ordinals.size();
            }

            struct budget
            {};

        private:
            struct Frame
            {
                    int    kind; // 0: branch (pc,pos); 1: undo capture; 2: undo slot; 3: atomic fence
                    int    x;
                    long   y;
            };
            std::vector<Frame> st;
            std::vector<long>  cap;
            std::vector<long>  slot;
            std::map<std::pair<int, long>, bool> looked;

            // runs from pc; returns end position or -1
            long run(int pc, std::string_view s, long pos)
            {
                const size_t base = st.size();
                for (;;)
                {
                    if (steps_left-- == 0)
                        throw budget {};
                    const Ins& in   = prog[pc];
                    bool       fail = false;
                    switch (in.op)
                    {
                        case Op::SET:
                            if (pos < (long) s.size()
                                && sets[in.set].test((unsigned char) s[pos]))
                            {
                                ++pos;
                                ++pc;
                            }
                            else
                                fail = true;
                            break;
                        case Op::SPLIT:
                            st.push_back({0, in.b, pos});
                            pc = in.a;
                            break;
                        case Op::JMP:
                            pc = in.a;
                            break;
                        case Op::SAVE:
                            // opening positions are kept in a shadow slot until the close
                            if (in.a % 2 == 0)
                            {
                                int sh = 2 * caps + in.a / 2;
                                st.push_back({1, sh, cap[sh]});
                                cap[sh] = pos;
                            }
                            else
                            {
                                st.push_back({1, in.a - 1, cap[in.a - 1]});
                                st.push_back({1, in.a, cap[in.a]});
                                cap[in.a - 1] = cap[2 * caps + in.a / 2];
                                cap[in.a]     = pos;
                            }
                            ++pc;
                            break;
                        case Op::BOL:
                            if (pos == 0 || (opt.multiline_bol && s[pos - 1] == '\n'))
                                ++pc;
                            else
                                fail = true;
                            break;
                        case Op::EOL:
                            if (pos == (long) s.size())
                                ++pc;
                            else if (s[pos] == '\n')
                            {
                                if (opt.eol_consumes)
                                    ++pos;
                                ++pc;
                            }
                            else
                                fail = true;
                            break;
                        case Op::MARK:
                            st.push_back({2, in.a, slot[in.a]});
                            slot[in.a] = pos;
                            ++pc;
                            break;
                        case Op::CHK:
                            // an empty iteration ends the loop (Perl): leave through the exit
                            if (slot[in.a] == pos)
                                pc += 2;
                            else
                                ++pc;
                            break;
                        case Op::ATOM:
                            {
                                size_t mark = st.size();
                                int    nb   = in.b;
                                long   r    = run(in.a, s, pos);
                                if (r < 0)
                                {
                                    fail = true;
                                    break;
                                }
                                // drop branches made inside, keep the undo records
                                size_t w = mark;
                                for (size_t k = mark; k < st.size(); ++k)
                                    if (st[k].kind != 0)
                                        st[w++] = st[k];
                                st.resize(w);
                                pos = r;
                                pc  = nb;
                                break;
                            }
                        case Op::LOOK:
                            {
                                auto at = looked.find({in.a, pos});
                                if (at == looked.end())
                                {
                                    const size_t mark = st.size();
                                    const bool   r    = run(in.a, s, pos) >= 0;
                                    for (; st.size() > mark; st.pop_back())
                                        if (const Frame& f = st.back(); f.kind == 1)
                                            cap[f.x] = f.y;
                                        else if (f.kind == 2)
                                            slot[f.x] = f.y;
                                    at = looked.emplace(std::pair {in.a, pos}, r).first;
                                }
                                if (at->second)
                                    ++pc;
                                else
                                    fail = true;
                                break;
                            }
                        case Op::END:
                            return pos;
                        default:
                            throw std::logic_error("op");
                    }
                    if (fail)
                    {
                        for (;;)
                        {
                            if (st.size() == base)
                                return -1;
                            Frame f = st.back();
                            st.pop_back();
                            if (f.kind == 1)
                                cap[f.x] = f.y;
                            else if (f.kind == 2)
                                slot[f.x] = f.y;
                            else
                            {
                                pc  = f.x;
                                pos = f.y;
                                break;
                            }
                        }
                    }
                }
            }

        public:
            // Match anchored at `at`.  Throws budget when the step limit is exceeded.
            Match match_at(std::string_view s, size_t at)
            {
                looked.clear();
                return attempt(s, at);
            }

        private:
            Match attempt(std::string_view s, size_t at)
            {
                st.clear();
                cap.assign(3 * caps, -1);
                slot.assign(slots, -1);
                Match m;
                long  e = run(0, s, (long) at);
                if (e < 0)
                    return m;
                m.ok = true;
                m.b  = at;
                m.e  = (size_t) e;
                for (int k = 0; k < caps; ++k)
                    m.g.push_back({(int) cap[2 * k], (int) cap[2 * k + 1]});
                return m;
            }

        public:
            // Leftmost match with start in [from, size].
            Match search(std::string_view s, size_t from, uint64_t budget_steps = 2000000)
            {
                steps_left = budget_steps;
                looked.clear();
                for (size_t at = from; at <= s.size(); ++at)
                {
                    Match m = attempt(s, at);
                    if (m.ok)
                        return m;
                }
                return {};
            }
    };

    /*
     * Which inputs are outside of the engine's known limitation (a finished group is not entered
     * again)?  Whether a group counts as finished depends on what is around it, so the answer has to
     * be the same whichever of the groups are atomic: with all of them, and with every choice of
     * them (of many groups: each alone, all but one, the first k and the last k).
     */
    class Reach
    {
            std::string        pat;
            std::vector<Regex> variants;
            bool               made = false;

            static Options with(uint64_t mask, bool everywhere = false)
            {
                Options o;
                o.atomic_groups = true;
                o.atomic_mask   = mask;
                o.lookahead     = true;
                o.everywhere    = everywhere;
                return o;
            }

            // empty groups are all alike
            static bool same(const Match& x, const Match& y)
            {
                if (x.ok != y.ok || x.b != y.b || x.e != y.e || x.g.size() != y.g.size())
                    return false;
                for (size_t k = 0; k < x.g.size(); ++k)
                    if (x.g[k] != y.g[k] && (x.g[k].first != x.g[k].second || y.g[k].first != y.g[k].second))
                        return false;
                return true;
            }

            void make()
            {
                made        = true;
                const int n = all.groups();
                if (n > 0)
                    variants.emplace_back(pat, with(~0ull, true));
                if (n < 2)
                    return;
                const uint64_t     every = n >= 64 ? ~0ull : (1ull << n) - 1;
                std::set<uint64_t> masks;
                if (n <= 5)
                    for (uint64_t m = 1; m < every; ++m)
                        masks.insert(m);
                else
                    for (int k = 0; k < n && k < 24; ++k)
                        masks.insert({1ull << k, every & ~(1ull << k), (1ull << k) - 1, every & ~((1ull << k) - 1)});
                masks.erase(0);
                masks.erase(every);
                for (uint64_t m: masks)
                    variants.emplace_back(pat, with(m));
            }

        public:
            Regex all;

            explicit Reach(std::string_view p)
                : pat {p}, all {p, with(~0ull)}
            {}

            // Do all the choices in between find what both ends (none and all) find?
            bool between(std::string_view s, size_t from, const Match& want, uint64_t budget_steps, bool anchored = false)
            {
                if (!made)
                    make();
                for (Regex& r: variants)
                {
                    r.steps_left  = budget_steps;
                    const Match w = anchored ? r.match_at(s, from) : r.search(s, from, budget_steps);
                    if (!same(w, want))
                        return false;
                }
                return true;
            }
    };
} // namespace ref
