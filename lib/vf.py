"""Shared machinery of the checks: generates translation units for patterns, builds them against
/repo's working tree, runs them under the monitors and decides."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
CORPUS = os.path.join(VERIF, 'corpus')
FINDINGS = os.path.join(VERIF, 'known_findings.txt')
JOBS = int(os.environ.get('VF_JOBS', str(min(8, os.cpu_count() or 1))))
COMPILE_TIMEOUT = 240

SEARCH, ITERATE, RANGE, PLAIN, EXPR, AGAIN, DECOMP, ARRAYS = 1, 2, 4, 8, 16, 32, 64, 128
FULL, BYTES, LONG, HUGE = 1, 2, 4, 8


class HarnessError(Exception):
    """Nothing can be concluded: not a violation."""


class SlowCompile(HarnessError):
    """The compiler was not done in time."""


def literal(b):
    """A C++ string literal for any bytes."""
    out = []
    for c in b:
        if 32 <= c < 127 and c not in b'"\\?':
            out.append(chr(c))
        else:
            out.append('\\%03o' % c)
    return '"' + ''.join(out) + '"'


def corpus(*names):
    """Patterns of corpus/NAME.txt: one per line, \\u{HH} for raw bytes, # comments, tag prefix."""
    out = []
    for name in names:
        with open(os.path.join(CORPUS, name + '.txt'), 'rb') as f:
            for line in f:
                line = line.rstrip(b'\n')
                if not line or line.startswith(b'## '):
                    continue
                out.append(re.sub(rb'\\u\{([0-9a-f]{2})\}', lambda m: bytes([int(m[1], 16)]), line))
    return list(dict.fromkeys(out))


def show(b):
    return repr(b)[2:-1] if isinstance(b, bytes) else str(b)


class Findings:
    def __init__(self, prop):
        self.known = {}
        if os.path.exists(FINDINGS):
            with open(FINDINGS) as f:
                for line in f:
                    if not line.startswith('finding: '):
                        continue
                    d = json.loads(line[len('finding: '):])
                    if d['property'] == prop:
                        self.known[(d['kind'], d['pattern'], d['input'], d['got'])] = d
        self.seen = []

    def match(self, kind, pattern, inp, got):
        d = self.known.get((kind, show(pattern), show(inp), got))
        if d and d not in self.seen:
            self.seen.append(d)
        return d is not None


class Check:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1') or '1')
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='vf-%s-' % prop)
        self.findings = Findings(prop)
        self.violations = []
        self.lock = threading.Lock()
        self.notes = []
        self.cov = {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': '', 'samples': []}
        self.counts = {}
        self.inconclusive = []

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def count(self, key, n=1):
        with self.lock:
            self.counts[key] = self.counts.get(key, 0) + n

    def sample(self, s, cap=12):
        with self.lock:
            if len(self.cov['samples']) < cap:
                self.cov['samples'].append(s)

    def violation(self, kind, pattern, inp, got, want, replay=None):
        """Route every alarm through the known findings."""
        with self.lock:
            if self.findings.match(kind, pattern, inp, got):
                return False
            self.violations.append({'kind': kind, 'pattern': show(pattern), 'input': show(inp), 'got': got,
                                    'want': want, 'pattern_hex': pattern.hex() if isinstance(pattern, bytes) else '',
                                    'input_hex': inp.hex() if isinstance(inp, bytes) else '',
                                    'replay': replay or {}})
            return True

    def enough(self):
        """The verdict cannot change any more."""
        with self.lock:
            return len(self.violations) >= 40 or sum(v['kind'] in ('hang', 'crash') for v in self.violations) >= 4

    # ---- the end
    def finish(self, min_evaluations=1, level='exploration', assumptions=()):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        self.cov.update(self.counts)
        if self.inconclusive:
            self.cov['inconclusive'] = self.inconclusive[:20]
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': self.cov,
              'assumptions': list(assumptions), 'wall_s': round(time.time() - self.t0, 1),
              'violations': len(self.violations)}
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for d in self.findings.seen:
            print('KNOWN-FINDING: property=%s pattern=%s input=%s got=%s want=%s'
                  % (self.prop, d['pattern'], d['input'], d['got'], d.get('want', '')))
        if self.violations:
            if os.environ.get('VF_LIST'):
                with open(os.environ['VF_LIST'], 'a') as f:
                    for v in self.violations:
                        f.write('finding: ' + json.dumps({'property': self.prop, **{k: v[k] for k in (
                            'kind', 'pattern', 'input', 'got', 'want')}}) + '\n')
            rdir = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rdir, exist_ok=True)
            for k, v in enumerate(self.violations[:20]):
                path = os.path.join(rdir, '%s-%d.json' % (self.prop, k))
                with open(path, 'w') as f:
                    json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed, **v}, f, indent=1)
                print('# %s: pattern %s input %s\n#   got  %s\n#   want %s'
                      % (v['kind'], v['pattern'][:300], v['input'][:300], v['got'][:600], v['want'][:300]))
                print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('%s: %d violations' % (self.prop, len(self.violations)))
            return 1
        if self.cov['evaluations'] < min_evaluations:
            print('%s: only %d executions were observed, not enough to conclude'
                  % (self.prop, self.cov['evaluations']))
            return 2
        print('%s %s: held on %d executions (%d distinct and not trivial), %s, %.0f s'
              % (self.prop, self.tier, self.cov['evaluations'], self.cov['distinct_nontrivial'],
                 ', '.join('%s %s' % (k, v) for k, v in sorted(self.counts.items())), ev['wall_s']))
        return 0


# ---- building

class Toolchain:
    def __init__(self, name='g++', opt='-O1', san=(), defs=()):
        self.cxx = name
        self.san = list(san)
        self.flags = ['-std=c++23', opt, '-w', '-I', os.path.join(REPO, 'src'), '-I', HARNESS] + list(san) + list(defs)
        if name.startswith('clang'):
            self.flags += ['-ftemplate-depth=4096', '-fconstexpr-steps=100000000', '-fbracket-depth=2048']
        else:
            self.flags += ['-ftemplate-depth=4096', '-fconstexpr-ops-limit=1000000000', '-fconstexpr-loop-limit=10000000']

    def compile(self, src, out, timeout=COMPILE_TIMEOUT, extra=()):
        """-> None, or the compiler's errors"""
        try:
            r = subprocess.run([self.cxx] + self.flags + list(extra) + ['-c', src, '-o', out], capture_output=True,
                               timeout=timeout, errors='replace', text=True)
        except subprocess.TimeoutExpired:
            raise SlowCompile('the compiler timed out on ' + src)
        if r.returncode == 0:
            return None
        err = r.stderr
        if r.returncode < 0 or 'internal compiler error' in err or 'Killed signal' in err \
                or 'out of memory' in err or 'PLEASE submit a bug report' in err or 'No space left' in err:
            raise HarnessError('the compiler failed: ' + err[-500:])
        lines = [l for l in err.split('\n') if 'error' in l]
        return '\n'.join(lines[:3]) or err[-300:]

    def link(self, objs, out):
        r = subprocess.run([self.cxx] + self.san + list(objs) + ['-o', out, '-lpthread'], capture_output=True, text=True)
        if r.returncode != 0:
            raise HarnessError('link: ' + r.stderr[-500:])


ASAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
TSAN = ['-fsanitize=thread']
SAN_ENV = {'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:handle_segv=1:detect_stack_use_after_return=1',
           'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1',
           'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66'}


class Item:
    """One case of a runner: what it is called in reports, how it is judged, and what it is made of."""

    def __init__(self, id, flags=0, payload=None):
        self.id, self.flags, self.payload = id, flags, payload

    def json(self):
        p = self.payload
        if isinstance(p, (list, tuple)):
            p = [[x.hex() if isinstance(x, bytes) else x for x in d] if isinstance(d, (list, tuple)) else d.hex()
                 for d in p]
        return {'id': self.id.hex(), 'flags': self.flags, 'payload': p}


def static_string(p):
    return 'e_regex::static_string {%s}' % literal(p)


def pattern_tu(items, features):
    """Regexes: the id is the pattern."""
    out = ['#include "regex_probe.hpp"']
    for k, i in enumerate(items):
        out.append('static probe::Reg r%d {probe::make<%s, %d>(std::string_view {%s, %d}, %d)};'
                   % (k, static_string(i.id), features, literal(i.id), len(i.id), i.flags))
    return '\n'.join(out) + '\n'


TYPES = {'T0': 7, 'T1': 1, 'T2': -2, 'T3': 300, 'T4': 0, 'T5': 5, 'T6': 66, 'T7': 70000}


def tokenizer_type(defs, space='tok', types='tok::'):
    out = []
    for kind, pat in defs:
        out.append('%s::separator {%s}' % (space, literal(pat)) if kind == 'sep'
                   else '%s::token {%stype::%s, %s}' % (space, types, kind, literal(pat)))
    return 'e_regex::tokenization::tokenizer<%s>' % ', '.join(out)


def tokenizer_id(defs):
    return b'  '.join((b'separator ' if k == 'sep' else b'token %d ' % TYPES[k]) + p for k, p in defs)


def tokenizer_tu(items, features):
    """Tokenizers: the payload is a list of ('sep' or a type's name, pattern)."""
    out = ['#include "tok_make.hpp"']
    for k, i in enumerate(items):
        d = ', '.join('{%s, %d, std::string_view {%s, %d}}' % ('true' if t == 'sep' else 'false', TYPES.get(t, 0),
                                                             literal(p), len(p)) for t, p in i.payload)
        out.append('static tok::Reg r%d {tok::make<%s>({%s})};' % (k, tokenizer_type(i.payload), d))
    return '\n'.join(out) + '\n'


def family_tu(items, features):
    """Families of regexes compared with each other: the payload is a list of patterns."""
    out = ['#include "indep_make.hpp"']
    for k, i in enumerate(items):
        probes = ', '.join('probe::make<%s, %d>(std::string_view {%s, %d}, 0)'
                           % (static_string(p), features, literal(p), len(p)) for p in i.payload)
        types = ', '.join('e_regex::regex<%s>' % static_string(p) for p in i.payload)
        out.append('static indep::Reg r%d {indep::make<%s>({%s})};' % (k, types, probes))
    return '\n'.join(out) + '\n'


def lean_tu(items, features):
    """Regexes (the id is the pattern) and tokenizers (with a payload)."""
    out = ['#include "lean_make.hpp"', 'enum class type { T0, T1, T2, T3, T4, T5, T6, T7 };']
    for k, i in enumerate(items):
        ident = 'std::string_view {%s, %d}' % (literal(i.id), len(i.id))
        if i.payload is None:
            out.append('static lean::Reg r%d {lean::regex<%s>(%s)};' % (k, static_string(i.id), ident))
        else:
            d = ', '.join('{%s, std::string_view {%s, %d}}' % ('true' if t == 'sep' else 'false', literal(p), len(p))
                          for t, p in i.payload)
            out.append('static lean::Reg r%d {lean::tokenizer<%s>(%s, {%s})};'
                       % (k, tokenizer_type(i.payload, 'lean', ''), ident, d))
    return '\n'.join(out) + '\n'


SMOKE_PATTERNS = [Item(b'a'), Item(b'a(b)'), Item(b'a*')]
SMOKE = {
    pattern_tu: SMOKE_PATTERNS,
    tokenizer_tu: [Item(b'smoke', 0, [('T0', b'a'), ('sep', b'b')])],
    family_tu: [Item(b'smoke', 0, [b'a', b'b'])],
    lean_tu: SMOKE_PATTERNS,
}


RUNNERS = cf.ThreadPoolExecutor(4)


class Fleet:
    """Builds and runs many cases with one runner."""

    def __init__(self, check, tool, features, monitors, runner='runner.cpp', args=(), chunk=24, hang=8,
                 runner_tool=None, env=None, wrapper=(), tu=pattern_tu, label='', link=()):
        self.c, self.t, self.features, self.tu, self.label = check, tool, features, tu, label
        self.args = ['--monitors', monitors, '--seed', str(check.seed), '--hang', str(hang)] + list(args)
        self.chunk = chunk
        self.hang = hang
        self.env = {**os.environ, **SAN_ENV, **(env or {})}
        self.n = 0
        self.failed_compiles = 0
        self.smoke_done = False
        self.smoke_lock = threading.Lock()
        self.wrapper = list(wrapper)
        self.monitors = monitors
        self.runner = self.new('o')
        self.runner_name = runner
        self.runner_built = RUNNERS.submit((runner_tool or tool).compile, os.path.join(HARNESS, runner), self.runner)

    def new(self, ext):
        with self.c.lock:
            self.n += 1
            return os.path.join(self.c.dir, 'f%d_%d.%s' % (id(self) % 100000, self.n, ext))

    def how(self, item):
        """What a replay needs"""
        return {'fleet': self.label, 'item': item.json()}

    def build(self, items, timeout=COMPILE_TIMEOUT):
        """-> list of (object, items), failures being reported"""
        src, obj = self.new('cpp'), self.new('o')
        with open(src, 'w') as f:
            f.write(self.tu(items, self.features))
        try:
            err = self.t.compile(src, obj, timeout)
        except SlowCompile:
            # no verdict on what takes too long to be built, and everything else goes on
            if len(items) > 1 and time.time() - self.c.t0 < 400:
                h = len(items) // 2
                return self.build(items[:h], 100) + self.build(items[h:], 100)
            self.c.count('cases_left_out_slow_to_build', len(items))
            return []
        if err is None:
            os.remove(src)
            return [(obj, items)]
        if not self.smoke():
            return []
        if len(items) == 1 and self.t.cxx.startswith('clang'):
            # its opinion on the language does not matter here
            self.c.count('cases_not_built_by_clang')
            return []
        if len(items) == 1:
            with self.c.lock:
                self.failed_compiles += 1
            self.c.violation('compile', items[0].id, b'', 'does not compile: ' + err,
                             'a documented construct compiles', self.how(items[0]))
            return []
        if self.failed_compiles > 6:
            self.c.count('cases_not_built', len(items))
            return []
        h = len(items) // 2
        return self.build(items[:h]) + self.build(items[h:])

    def smoke(self):
        """A tree in which nothing compiles is not judged."""
        with self.smoke_lock:
            if not self.smoke_done:
                src, obj = self.new('cpp'), self.new('o')
                with open(src, 'w') as f:
                    f.write(self.tu(SMOKE[self.tu], SEARCH))
                err = self.t.compile(src, obj)
                if err and not self.t.cxx.startswith('clang'):
                    raise HarnessError('not even the simplest cases compile: ' + err)
                self.smoke_done, self.smoke_ok = True, not err
            return self.smoke_ok

    def go(self, items):
        items = list({i.id: i for i in items}.values())
        chunks = [items[i:i + self.chunk] for i in range(0, len(items), self.chunk)]
        self.c.count('cases', len(items))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(self.job, ch) for ch in chunks]
            for f in futs:
                f.result()

    def job(self, items):
        if self.c.enough():
            self.c.count('cases_skipped_after_violations', len(items))
            return
        for obj, its in self.build(items):
            exe = self.new('exe')
            err = self.runner_built.result()
            if err:
                raise HarnessError('the runner does not compile: ' + err)
            self.t.link([self.runner, obj], exe)
            os.remove(obj)
            self.c.count('programs_run')
            try:
                self.run(exe, its)
            finally:
                os.remove(exe)

    def once(self, exe, extra, timeout=1500):
        prog = exe + '.progress'
        if os.path.exists(prog):
            os.remove(prog)
        try:
            r = subprocess.run(self.wrapper + [exe, '--progress', prog] + self.args + list(extra), capture_output=True,
                               timeout=timeout, env=self.env)
        except subprocess.TimeoutExpired:
            raise HarnessError('a runner used up its wall clock limit')
        page = None
        if os.path.exists(prog):
            with open(prog, 'rb') as f:
                data = f.read()
            os.remove(prog)
            if len(data) >= 48:
                case, number, size = struct.unpack('lll', data[:24])
                stage = data[24:48].split(b'\0')[0].decode('latin1')
                page = (case, data[48:48 + size], stage)
        return r, page

    def run(self, exe, items, extra=()):
        first = 0
        while True:
            r, page = self.once(exe, ['--first', str(first)] + list(extra))
            out = r.stdout.decode('latin1')
            self.collect(out, items)
            if r.returncode == 0 and '\nEND\t' in '\n' + out:
                return
            if r.returncode in (-signal.SIGKILL, 78, 79) or page is None:
                raise HarnessError('a runner ended with %d: %s' % (r.returncode, r.stderr[-400:]))
            case, inp, stage = page
            # once more, alone: the verdict has to be reproducible
            again = ['--only', str(case)] + list(extra)
            if r.returncode == 77:
                again += ['--hang', str(3 * self.hang)]
            r2, page2 = self.once(exe, again)
            if r2.returncode == 0:
                self.c.inconclusive.append('pattern %s input %s ended with %d once, and well when run again'
                                           % (show(items[case].id), show(inp), r.returncode))
            elif r2.returncode == -signal.SIGKILL:
                raise HarnessError('a runner was killed')
            else:
                inp = page2[1] if page2 else inp
                what = 'no answer within %d s of CPU time' % (3 * self.hang) if r2.returncode == 77 else \
                    'crash (%d): %s' % (r2.returncode, crash_summary(r2.stderr))
                self.c.violation('hang' if r2.returncode == 77 else 'crash', items[case].id, inp, what,
                                 'an answer', {**self.how(items[case]), 'stage': stage,
                                               'stderr': r2.stderr.decode('latin1')[-3000:]})
            first = case + 1
            if first >= len(items) or self.c.enough():
                return

    def collect(self, out, items):
        c = self.c
        for line in out.split('\n'):
            f = line.split('\t')
            if len(f) < 4:
                continue
            if f[0] == 'V':
                _, kind, case, pat, inp, got, want = f[:7]
                c.violation(kind, bytes.fromhex(pat), bytes.fromhex(inp), got, want, self.how(items[int(case)]))
            elif f[0] == 'K':
                _, case, pat, ev, nontriv, compared, out_of_reach, budget, outcomes, sample = f[:10]
                with c.lock:
                    c.cov['evaluations'] += int(ev)
                    c.cov['distinct_nontrivial'] += int(nontriv)
                c.count('compared_with_oracle', int(compared))
                c.count('distinct_outcomes', int(outcomes))
                if int(out_of_reach):
                    c.count('inputs_left_out_reentry', int(out_of_reach))
                if int(budget):
                    c.count('inputs_beyond_oracle_budget', int(budget))
                if ' -> ' in sample and int(case) % 7 == 0:
                    h, o = sample.split(' -> ')
                    c.sample('%s on %s -> %s' % (show(bytes.fromhex(pat)), show(bytes.fromhex(h)), o))
            elif f[0] == 'N':
                c.count(f[2], int(f[3]))
            elif f[0] == 'U':
                c.count('cases_not_modelled')
                if os.environ.get('VF_VERBOSE'):
                    print('not modelled', show(bytes.fromhex(f[2])), f[3])


def crash_summary(err):
    t = err.decode('latin1')
    m = re.search(r'(SUMMARY: .*|runtime error: .*|WARNING: ThreadSanitizer: .*|Assertion .*)', t)
    return m.group(1)[:300] if m else t[-200:].replace('\n', ' ')


def reduce_patterns(lst, n, key):
    """n of the list, picked by the hash of key and the element: stable, but varied with the key."""
    return sorted(lst, key=lambda p: hashlib.sha1(repr((key, p)).encode()).digest())[:n]
