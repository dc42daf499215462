#!/usr/bin/env python3
"""check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]

Decides one property of properties.jsonl on /repo's current working tree by running the real code
under monitors.  Exit 0: held on everything that ran; 1: VIOLATION lines; 2: nothing concluded."""
import argparse
import json
import os
import subprocess
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import corpora as C  # noqa: E402
import drivers  # noqa: E402
import gen  # noqa: E402
import tokgen  # noqa: E402
import vf  # noqa: E402
from vf import (AGAIN, ARRAYS, ASAN, BYTES, DECOMP, EXPR, FULL, HUGE, ITERATE, LONG, PLAIN, RANGE, SEARCH,  # noqa: E402
                Fleet, Item, Toolchain)

ASSUMPTIONS = [
    'the model of harness/ref.hpp states what the documented dialect means',
    'inputs on which the model with and without backtracking into groups differ are left out '
    '(known limitation, see known_findings.txt), except for the fixed list of corpora.REENTRY',
    'held on the executions that were observed: nothing is claimed of other patterns and inputs',
]


def items(patterns, flags=0):
    return [Item(p, flags) for p in patterns]


class Plan:
    """The patterns of one check."""

    def __init__(self, check):
        self.c = check
        self.items = []
        self.scale = 6 if check.thorough else 1

    def add(self, patterns, flags=0):
        self.items += items(patterns, flags)
        return self

    def pick(self, patterns, n, key='', flags=0):
        """Half of them always the same, half by the seed"""
        n *= self.scale
        self.add(vf.reduce_patterns(patterns, n // 2, key), flags)
        return self.add(vf.reduce_patterns(patterns, n - n // 2, '%s/%d' % (key, self.c.seed)), flags)

    def random(self, profile, n, flags=0):
        n *= self.scale
        self.add(gen.profile(profile, 'fixed', n // 2), flags)
        return self.add(gen.profile(profile, 'seed%d' % self.c.seed, n - n // 2), flags)

    def stress(self, n, key):
        """Large patterns: few, because they are slow to compile"""
        s = C.stress()
        return self.add(s if self.c.thorough else vf.reduce_patterns(s, n, key), LONG)


WORK = ['--exh', '500', '--rand', '200']
DEEP = ['--exh', '3000', '--rand', '800', '--maxlen', '60', '--long']


def work(c):
    return DEEP if c.thorough else WORK


def fleet(c, features, monitors, **kw):
    kw.setdefault('args', work(c))
    return Fleet(c, kw.pop('tool', None) or Toolchain(), features, monitors, **kw)


# ---------------------------------------------------------------------------------------- regexes

def plan_c01(c):
    p = Plan(c)
    p.add(C.REENTRY, FULL).add(C.REAL).add(C.SEARCH)
    p.random('mixed', 170).random('literal', 120).random('alts', 60).random('quants', 60).random('groups', 50)
    p.random('classes', 30).random('anchors', 20).random('numeric', 30)
    p.add(C.OVERLAP).pick(C.NUMERIC, 24, 'c01').pick(C.HEUR, 16, 'c01')
    p.pick(C.quant_matrix(), 50, 'c01').pick(C.alt_matrix(), 40, 'c01').pick(C.class_matrix(), 30, 'c01')
    p.stress(14, 'c01')
    p.pick(C.follow_matrix(), 40, 'c01').pick(C.nullable_matrix(), 30, 'c01').pick(C.set_matrix(), 20, 'c01')
    p.pick(C.given_matrix(), 40, 'c01')
    p.pick(C.group_branches(), 20, 'c01')
    p.add([b'a', b'ab', b'needle', b'a|b', b'[ab]c', b'(a)(b)', b'a+?b', rb'\d{4}'], HUGE)
    return p


def c01(c):
    p = plan_c01(c)
    fleet(c, SEARCH, 'span,accessors', args=work(c) + ['--long']).go(p.items)
    # literals, and both ways of calling
    a = Plan(c).pick(C.SEARCH, 30, 'c01a').random('mixed', 24).random('anchors', 6).pick(C.CAPS, 10, 'c01a')
    a.pick(C.CLASSES, 10, 'c01a').add([b'b', b'a', b'.*', b'[^a]', b'$', b'^', b'x*', b'.b$'])
    fleet(c, SEARCH | ARRAYS, 'span', label='arrays', chunk=12).go(a.items)


def plan_c02(c):
    p = Plan(c)
    p.add(C.QUANTS).add([r for r in C.REENTRY if b'*' in r or b'+' in r or b'?' in r], FULL)
    p.pick(C.quant_matrix(), 260, 'c02').random('quants', 160).random('flatq', 120).random('heur', 30)
    p.stress(20, 'c02')
    p.pick(C.nullable_matrix(), 120, 'c02').pick(C.follow_matrix(), 60, 'c02')
    p.add(C.given_core()).pick(C.given_matrix(), 90, 'c02')
    p.pick(C.ZERO, 30, 'c02').pick(C.ALTERNATING, 60, 'c02')
    p.add(C.HUGE_QUANTS, HUGE)
    p.pick(C.bounds(), 60, 'c02', LONG).pick(C.HUGE_BOUNDS, 6, 'c02', HUGE)
    return p


def c02(c):
    fleet(c, SEARCH | ITERATE | RANGE, 'caps,accessors,iterate', args=work(c) + ['--long']).go(plan_c02(c).items)


def plan_c03(c):
    p = Plan(c)
    p.add(C.ALT).add([r for r in C.REENTRY if b'|' in r], FULL)
    p.pick(C.alt_matrix(), 240, 'c03').random('alts', 200).random('groups', 50)
    p.pick(C.group_branches(), 120, 'c03').pick(C.follow_matrix(), 30, 'c03').pick(C.given_matrix(), 40, 'c03')
    p.add([a for a in C.ALTERNATING if a.endswith(b'{0,2}b') and a.startswith(b'(')]).pick(C.ALTERNATING, 80, 'c03')
    p.add([s for s in C.stress() if s.count(b'|') > 8], LONG)
    return p


def c03(c):
    fleet(c, SEARCH, 'caps,accessors').go(plan_c03(c).items)


def plan_c04(c):
    p = Plan(c)
    p.add(C.CAPS).add(C.REAL)
    p.random('groups', 200).random('alts', 50).random('quants', 50).random('mixed', 60)
    p.pick([m for m in C.quant_matrix() if b'(' in m.replace(b'(?', b'')], 60, 'c04').pick(C.alt_matrix(), 40, 'c04')
    p.pick(C.given_matrix(), 60, 'c04').pick(C.ZERO, 16, 'c04')
    p.pick(C.group_branches(), 140, 'c04').pick([m for m in C.nullable_matrix() if b'(' in m.replace(b'(?', b'')], 30, 'c04')
    p.add([s for s in C.stress() if s.replace(b'(?', b'').count(b'(') > 6], LONG)
    return p


def c04(c):
    fleet(c, SEARCH | DECOMP | ITERATE | RANGE, 'caps,accessors,iterate').go(plan_c04(c).items)


def plan_c05(c):
    p = Plan(c)
    p.add(C.CLASSES, BYTES).add(C.RAW_SETS, BYTES).add(C.sequences(C.escaped_bytes()), BYTES)
    p.pick(C.class_matrix(), 220, 'c05', BYTES).random('classes', 130, BYTES)
    p.pick(C.literals(), 60, 'c05', BYTES).pick(C.set_matrix(), 220, 'c05', BYTES)
    return p


def c05(c):
    fleet(c, SEARCH, 'span', args=['--exh', '300', '--rand', '100']).go(plan_c05(c).items)


def plan_c06(c):
    p = Plan(c)
    p.add(C.ANCHORS).random('anchors', 360)
    p.random('mixed', 40)
    p.pick([m for m in C.nullable_matrix() + C.follow_matrix() if b'^' in m.replace(b'[^', b'') or b'$' in m], 60, 'c06')
    return p


def c06(c):
    fleet(c, SEARCH | ITERATE | RANGE, 'caps,accessors,iterate').go(plan_c06(c).items)


def plan_c07(c):
    p = Plan(c)
    p.add(C.SEARCH).add(C.REAL).add(C.ANCHORS)
    p.pick(C.CAPS, 50, 'c07').pick(C.ALT, 40, 'c07').pick(C.QUANTS, 60, 'c07')
    p.random('mixed', 90).random('quants', 60).random('alts', 40).random('literal', 40).random('anchors', 50)
    p.random('groups', 30)
    p.pick(C.nullable_matrix(), 40, 'c07').pick(C.group_branches(), 20, 'c07').pick(C.CLASSES, 20, 'c07').pick(C.NUMERIC, 20, 'c07')
    p.stress(8, 'c07')
    p.add([b'ab', b'(a)(b)', rb'\d{4}'], HUGE)
    return p


def c07(c):
    fleet(c, SEARCH | ITERATE | RANGE, 'span,iterate', args=work(c) + ['--long']).go(plan_c07(c).items)


def plan_c08(c):
    p = Plan(c)
    p.add(C.REAL).add(C.SEARCH)
    p.pick(C.CAPS, 24, 'c08').pick(C.ALT, 24, 'c08').pick(C.QUANTS, 40, 'c08').pick(C.ANCHORS, 40, 'c08')
    p.pick(C.CLASSES, 24, 'c08').pick(C.NUMERIC, 30, 'c08').pick(C.HEUR, 20, 'c08')
    p.random('mixed', 40).random('quants', 30).random('anchors', 24).random('groups', 20).random('numeric', 20)
    p.random('literal', 20).pick(C.nullable_matrix(), 24, 'c08').pick(C.follow_matrix(), 24, 'c08').pick(C.set_matrix(), 16, 'c08')
    p.pick(C.OVERLAP, 10, 'c08').pick(C.group_branches(), 10, 'c08')
    return p


def c08(c):
    opt = ['-D_GLIBCXX_ASSERTIONS']
    t = Toolchain('g++', '-O1', ASAN, opt)
    f = fleet(c, SEARCH | ITERATE | RANGE, 'memory,iterate', tool=t, label='asan+ubsan',
              args=['--exh', '300', '--rand', '120', '--long'])
    g = fleet(c, 0, '', tool=t, runner='tok_runner.cpp', tu=vf.tokenizer_tu, chunk=3, label='tokenizers asan+ubsan',
              args=['--exh', '300', '--rand', '200', '--long'])
    p = plan_c08(c)
    f.go(p.items)
    g.go(tokgen.items(c, 12 * p.scale))
    if c.thorough:
        tc = Toolchain('clang++', '-O1', ASAN, opt)
        fleet(c, SEARCH | ITERATE | RANGE, 'memory,iterate', tool=tc, label='clang asan+ubsan',
              args=['--exh', '600', '--rand', '300', '--long']).go(p.items[:500])
        # uninitialised reads
        fleet(c, SEARCH | ITERATE | RANGE, 'memory,iterate', tool=Toolchain('g++', '-O0', (), ['-g']), label='valgrind',
              args=['--exh', '20', '--rand', '10'], hang=600,
              wrapper=['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes']).go(p.items[:160])


def plan_c09(c):
    p = Plan(c)
    p.add(C.HEUR).pick(C.REAL, 30, 'c09').pick(C.SEARCH, 30, 'c09')
    p.pick(C.quant_matrix(), 90, 'c09').random('heur', 130).random('quants', 60).random('alts', 40).random('mixed', 60)
    p.random('anchors', 24).random('classes', 30)
    p.add(C.middles_matrix(heads=[b'a*'])).pick(C.middles_matrix(), 60, 'c09')
    p.add(C.given_core()).pick(C.given_matrix(), 120, 'c09')
    p.pick(C.removal_matrix(), 60, 'c09').pick(C.follow_matrix(), 240, 'c09').pick(C.nullable_matrix(), 40, 'c09').pick(C.group_branches(), 20, 'c09')
    p.stress(4, 'c09')
    return p


def c09(c):
    """The tree before the optimizer is an internal of e-regex: when it cannot be named any more, the
    model alone judges the optimized one."""
    t = Toolchain(defs=['-DPROBE_PLAIN'])
    features, monitors = SEARCH | PLAIN, 'plain,span,caps'
    if drivers.compiles(c, t, vf.pattern_tu(vf.SMOKE_PATTERNS, features)):
        c.cov['plain_tree'] = 'compared'
    else:
        c.cov['plain_tree'] = 'not available: only the model is compared with'
        t, features, monitors = Toolchain(), SEARCH, 'span,caps'
    fleet(c, features, monitors, tool=t).go(plan_c09(c).items)


def plan_c10(c):
    p = Plan(c)
    p.add(C.SYNTAX).pick(C.NUMERIC, 90, 'c10').add(C.CLASSES).pick(C.set_matrix(), 120, 'c10').pick(C.REAL, 30, 'c10')
    p.pick(C.CAPS, 40, 'c10').pick(C.ALT, 40, 'c10').pick(C.QUANTS, 50, 'c10').pick(C.ANCHORS, 24, 'c10')
    p.pick(C.quant_matrix(), 40, 'c10').pick(C.class_matrix(), 40, 'c10').pick(C.alt_matrix(), 24, 'c10')
    p.random('mixed', 60).random('alts', 30).random('numeric', 40).random('classes', 30).random('groups', 30)
    p.add(C.sequences(C.escaped_bytes()), BYTES)
    p.pick(C.follow_matrix(), 40, 'c10').pick(C.nullable_matrix(), 30, 'c10').pick(C.group_branches(), 30, 'c10').pick(C.given_matrix(), 30, 'c10').pick(C.ZERO, 40, 'c10')
    p.stress(4, 'c10')
    return p


def c10(c):
    fleet(c, SEARCH | EXPR | AGAIN, 'again,span').go(plan_c10(c).items)


def c11(c):
    f = fleet(c, SEARCH, '', runner='indep_runner.cpp', tu=vf.family_tu, chunk=2,
              args=['--rand', '400' if c.thorough else '150'])
    fams = list(C.families())
    scale = 6 if c.thorough else 1
    for key, n in (('fixed', 8), ('seed%d' % c.seed, 8)):
        for prof in ('heur', 'alts', 'classes', 'mixed', 'numeric'):
            ps = gen.profile(prof, 'indep' + key, 8 * n * scale // 2)
            fams += [ps[i:i + 8] for i in range(0, len(ps), 8)]
    f.go([Item(b'  '.join(x), 0, x) for x in fams])


def c12(c):
    g = fleet(c, 0, '', runner='tok_runner.cpp', tu=vf.tokenizer_tu, chunk=4,
              args=['--exh', '4000', '--rand', '2000', '--long'] if c.thorough else ['--exh', '900', '--rand', '400', '--long'])
    g.go(tokgen.items(c, 600 if c.thorough else 110))


def c13(c):
    drivers.constants(c)


def plan_c14(c):
    p = Plan(c)
    p.add(C.ANCHORS).pick(C.REAL, 30, 'c14').pick(C.SEARCH, 40, 'c14').pick(C.CAPS, 30, 'c14').pick(C.QUANTS, 60, 'c14')
    p.random('mixed', 80).random('anchors', 60).random('quants', 50).random('literal', 40).random('heur', 20)
    p.random('alts', 30).pick(C.NUMERIC, 30, 'c14').pick(C.nullable_matrix(), 20, 'c14').pick(C.CLASSES, 20, 'c14')
    return p


def c14(c):
    fleet(c, SEARCH | ITERATE | RANGE, 'surroundings').go(plan_c14(c).items)
    fleet(c, 0, 'surroundings', runner='tok_runner.cpp', tu=vf.tokenizer_tu, chunk=4, label='tokenizers',
          args=['--exh', '300', '--rand', '200']).go(tokgen.items(c, 120 if c.thorough else 32))
    drivers.threads(c)


def plan_c15(c):
    p = Plan(c)
    p.add(C.SYNTAX, BYTES).add(C.sequences(C.escaped_bytes()), BYTES)
    p.pick(C.literals(), 120, 'c15').pick(C.CAPS, 30, 'c15').pick(C.CLASSES, 50, 'c15').pick(C.NUMERIC, 40, 'c15')
    p.random('mixed', 70).random('groups', 30).random('literal', 30).random('classes', 30).random('alts', 30)
    p.pick(C.set_matrix(), 60, 'c15').pick(C.group_branches(), 40, 'c15').pick(C.nullable_matrix(), 20, 'c15')
    p.pick(C.quant_matrix(), 60, 'c15').pick(C.alt_matrix(), 40, 'c15')
    p.add(C.grid()).add(C.escaped_punctuation())
    p.stress(6, 'c15')
    return p


def c15(c):
    fleet(c, SEARCH | EXPR, 'caps').go(plan_c15(c).items)


def plan_c16(c):
    p = Plan(c)
    p.add(C.NUMERIC, BYTES).add(C.numeric_sequences(), BYTES)
    p.add(C.single_nibbles(), BYTES)
    p.pick(C.numeric_all(), 160, 'c16', BYTES).random('numeric', 60, BYTES)
    if c.thorough:
        p.add(C.numeric_all(), BYTES)
    return p


def c16(c):
    fleet(c, SEARCH, 'caps', args=['--exh', '300', '--rand', '100']).go(plan_c16(c).items)


def plan_lean(c):
    p = Plan(c)
    p.add(C.REAL).pick(C.SEARCH, 40, 'lean').pick(C.CAPS, 40, 'lean').pick(C.ALT, 40, 'lean').pick(C.QUANTS, 70, 'lean')
    p.pick(C.ANCHORS, 40, 'lean').pick(C.CLASSES, 20, 'lean').pick(C.NUMERIC, 16, 'lean').pick(C.HEUR, 24, 'lean')
    p.pick(C.quant_matrix(), 60, 'lean').pick(C.alt_matrix(), 30, 'lean')
    p.random('mixed', 60).random('quants', 60).random('flatq', 30).random('groups', 30).random('alts', 30)
    p.random('anchors', 20).random('heur', 20).random('literal', 20)
    p.stress(8, 'lean')
    return p


def lean(c, monitors, opt, defs=()):
    t = Toolchain('g++', opt, (), defs)
    f = fleet(c, 0, monitors, tool=t, runner='lean_runner.cpp', tu=vf.lean_tu, runner_tool=Toolchain('g++', '-O2'),
              args=['--rand', '300', '--deep'] if c.thorough else ['--rand', '80'])
    f.go(plan_lean(c).items + tokgen.items(c, 60 if not c.thorough else 300))


def c17(c):
    # no recursion is to be hidden by the compiler
    lean(c, 'resources', '-O1', ['-fno-optimize-sibling-calls'])


def c18(c):
    lean(c, 'work', '-O2', ['-fsanitize-coverage=trace-pc'])


TOOLCHAINS = [
    ('g++', '-O0', []),
    ('g++', '-O3', ['-DNDEBUG', '-fno-exceptions', '-fno-rtti']),
    ('g++', '-O2', ['-funsigned-char']),
    ('g++', '-Os', ['-std=gnu++23', '-D_GLIBCXX_ASSERTIONS', '-fwrapv']),
    ('clang++', '-O0', []),
    ('clang++', '-O2', ['-std=c++2c', '-DNDEBUG']),
    ('clang++', '-O3', ['-funsigned-char']),
]


def plan_c19(c):
    p = Plan(c)
    p.pick(C.REAL, 8, 'c19').pick(C.SEARCH, 6, 'c19').pick(C.CAPS, 6, 'c19').pick(C.ALT, 6, 'c19').pick(C.QUANTS, 10, 'c19')
    p.pick(C.ANCHORS, 8, 'c19').pick(C.CLASSES, 10, 'c19', BYTES).pick(C.NUMERIC, 8, 'c19', BYTES).pick(C.HEUR, 6, 'c19')
    p.pick(C.RAW_SETS, 6, 'c19', BYTES).pick(C.class_matrix(), 6, 'c19', BYTES).pick(C.bounds(), 6, 'c19', LONG)
    p.random('mixed', 12).random('literal', 4).random('quants', 6).random('groups', 4).random('numeric', 4)
    return p


def c19(c):
    """The same texts, built in different ways.  The model is always built the same way."""
    p = plan_c19(c)
    smooth = Toolchain('g++', '-O1')
    toks = tokgen.items(c, 60 if c.thorough else 16)
    for cxx, opt, defs in TOOLCHAINS:
        label = ' '.join([cxx, opt] + defs)
        t = Toolchain(cxx, opt, (), defs)
        f = fleet(c, SEARCH | ITERATE | RANGE | EXPR, 'caps,accessors,iterate', tool=t, runner_tool=smooth, label=label,
                  args=['--exh', '400', '--rand', '150'], chunk=14)
        before = c.cov['evaluations']
        f.go(p.items)
        fleet(c, 0, '', tool=t, runner_tool=smooth, runner='tok_runner.cpp', tu=vf.tokenizer_tu, chunk=4, label='tokenizers ' + label,
              args=['--exh', '300', '--rand', '150']).go(toks)
        c.cov.setdefault('toolchains', {})[label] = c.cov['evaluations'] - before


def plan_c20(c):
    p = Plan(c)
    p.add(C.HEUR).add(C.REAL).pick(C.SEARCH, 40, 'c20').pick(C.QUANTS, 100, 'c20').pick(C.CAPS, 30, 'c20').pick(C.NUMERIC, 30, 'c20')
    p.pick(C.removal_matrix(), 360, 'c20').pick(C.quant_matrix(), 120, 'c20').pick(C.follow_matrix(), 120, 'c20').pick(C.nullable_matrix(), 60, 'c20')
    p.pick(C.class_matrix(), 60, 'c20').pick(C.alt_matrix(), 30, 'c20').pick(C.set_matrix(), 30, 'c20')
    p.pick(C.bounds(), 40, 'c20').pick(C.grid(), 60, 'c20')
    p.random('heur', 260).random('quants', 120).random('flatq', 60).random('mixed', 80).random('classes', 60).random('numeric', 40)
    return p


def c20(c):
    fleet(c, SEARCH | EXPR, 'applied,span', args=['--exh', '100', '--rand', '60']).go(plan_c20(c).items)


RULES = {
    'C01': 'evaluations: searches; distinct_nontrivial: distinct (pattern, input) with a non empty match, or none in a non empty input',
    'C11': 'evaluations: searches and ordered pairs judged; distinct_nontrivial: non empty matches whose first byte was recorded',
    'C12': 'evaluations: tokenizations; distinct_nontrivial: distinct (tokenizer, text) of which text is not empty',
    'C17': 'evaluations: searches and iterations on a watched stack; distinct_nontrivial: those that found something',
    'C18': 'evaluations: searches and iterations of which the steps were counted; distinct_nontrivial: those that found something',
    'C13': 'evaluations: constant evaluations and their run time twins; distinct_nontrivial: those with a match',
    'C14': 'evaluations: searches and threaded operations; distinct_nontrivial: distinct (pattern, input), and operations during '
           'which another thread used the same pattern',
}
CHECKS = {'C' + k[1:]: v for k, v in globals().items() if len(k) == 3 and k[0] == 'c' and k[1:].isdigit()}


def replay(c, path):
    """Only the case of one violation."""
    with open(path) as f:
        v = json.load(f)
    how = v['replay']
    if 'item' not in how:
        return False
    it = how['item']
    payload = it['payload']
    if payload and isinstance(payload[0], list):
        payload = [(d[0], bytes.fromhex(d[1])) for d in payload]
    elif payload:
        payload = [bytes.fromhex(d) for d in payload]
    wanted = Item(bytes.fromhex(it['id']), it['flags'], payload)
    original = Fleet.go

    def go(self, its):
        if self.label == how.get('fleet', '') and (self.tu is vf.lean_tu or (payload is None) == (self.tu is vf.pattern_tu)):
            original(self, [wanted])
    Fleet.go = go
    drivers.constants = drivers.threads = lambda c: None
    return True


def main():
    a = argparse.ArgumentParser()
    a.add_argument('property', choices=sorted(CHECKS))
    a.add_argument('--tier', choices=['quick', 'thorough'])
    a.add_argument('--seed')
    a.add_argument('--replay')
    o = a.parse_args()
    c = vf.Check(o.property, o.tier, o.seed)
    try:
        if o.replay:
            replay(c, o.replay)
        c.cov['rule'] = RULES.get(o.property, RULES['C01'])
        CHECKS[o.property](c)
        return c.finish(min_evaluations=1 if o.replay else 1000, assumptions=ASSUMPTIONS)
    except vf.HarnessError as e:
        if c.violations:
            # what was seen before stays seen
            return c.finish(assumptions=ASSUMPTIONS)
        print('%s: nothing can be concluded: %s' % (o.property, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        c.close()


if __name__ == '__main__':
    sys.exit(main())
