"""Checks that are not "many patterns, one runner": constant evaluation, and threads."""
import concurrent.futures as cf
import os
import subprocess

import corpora as C
import gen
import tokgen
import vf


def compiles(check, tool, text):
    src = os.path.join(check.dir, 'probe%d.cpp' % abs(hash(text)))
    with open(src, 'w') as f:
        f.write(text)
    try:
        return tool.compile(src, src + '.o') is None
    finally:
        os.remove(src)


# ---- constant expressions

CONSTANT_PATTERNS = [
    b'a', b'abc', b'a|b', b'ab|a', b'a*', b'a+b', b'a?b', b'(a)(b)', b'(a)|(b)', b'(a|b)*c', b'(?:ab)+', b'[a-c]+d', b'[^a]b', rb'\d+',
    rb'\w+@\w+', b'^a', b'a$', b'^a$', b'^$', b'x*', b'a{2}', b'a{2,3}b', b'a{2,}?b', b'a*?b', b'a*+b', b'a+?', b'(a+)(b*)', b'((a)b)?c',
    rb'(\d+)-(\d+)-(\d+)', rb'\x61b', rb'\x{6162}', rb'\141', rb'\o{141142}', b'.', b'.*', b'.+b', rb'\s\S', rb'\n', rb'\N+', b'\xff', b'[\x80-\xff]',
    rb'[^\x80-\xff]+', b'a$|b', b'(^a|b)c', b'(?:a$|ab)', b'(a)?b', b'(a)*?b', b'(?:(a)|b)+', b'aab', b'aaab', b'ba*', b'b?a?c?', b'a|ab|abc',
]

# bounds of all sizes, with every strategy
CONSTANT_BOUNDS = [b'a{%s}' % b + m + t for b in (b'0,2000', b'0,65536', b'1,1001', b'2000,', b'2,300', b'0,4294967294') for m in (b'', b'?', b'+')
                   for t in (b'', b'b')] + [b'a{1000}', b'(?:ab){0,5000}+c', b'(a){1,1024}', b'[ab]{0,256}+c']

CONSTANT_CLASSES = [rb'\d', rb'\D', rb'\w', rb'\W', rb'\s', rb'\S', rb'\n', rb'\N', b'.', rb'\t', rb'\r', rb'\f', b'[a-z]', b'[^a-z]', rb'[^\s]',
                    rb'[\w.]+', rb'[^\d-]', b'[\x80-\xff]', b'^.$', rb'\xff', b'$', b'a|\xe9', rb'(\s)(\S)', rb'a\w', rb'\d+\s']


def constants_tu(cases):
    """cases: (kind, item payload, inputs)"""
    out = ['#include "constant_probe.hpp"', '#include "tok_make.hpp"']
    main = []
    for k, (kind, what, inp) in enumerate(cases):
        if kind == 'sweep':
            out.append('static constexpr std::array<char, %d> i%d {%s};'
                       % (len(inp), k, ', '.join("'\\%03o'" % c for c in inp)))
            out.append('static constexpr auto c%d = constant::sweep<%s>(i%d);' % (k, vf.static_string(what), k))
            main.append('constant::check_sweep<%s>(%d, c%d, i%d);' % (vf.static_string(what), k, k, k))
            continue
        # the constant array ends where the input does: the compiler refuses to read past it
        if inp:
            out.append('static constexpr std::array<char, %d> i%d {%s};'
                       % (len(inp), k, ', '.join("'\\%03o'" % c for c in inp)))
            view = 'std::string_view {i%d.data(), %d}' % (k, len(inp))
        elif k % 2:
            out.append("static constexpr std::array<char, 1> i%d {'a'};" % k)
            view = 'std::string_view {i%d.data() + 1, 0}' % k
        else:
            view = 'std::string_view {}'
        if kind == 'regex':
            out.append('static constexpr auto c%d = constant::run<%s>(%s);' % (k, vf.static_string(what), view))
            main.append('constant::check<%s>(%d, c%d, %s);' % (vf.static_string(what), k, k, view))
        else:
            out.append('static constexpr auto c%d = tok::constant<%s>(%s);' % (k, vf.tokenizer_type(what), view))
            main.append('check_tokens<%s>(%d, c%d, %s);' % (vf.tokenizer_type(what), k, k, view))
    out.append('''
static void print_tokens(const char* tag, int k, const tok::Constant& o)
{
    printf("%s\\t%d\\t", tag, k);
    for (size_t i = 0; i < o.size; ++i)
        printf("%s%d:%ld,%ld", i ? " " : "", o.t[i].type, o.t[i].b, o.t[i].e);
    printf("\\t%zu\\n", o.size);
    fflush(stdout);
}
template<typename T>
void check_tokens(int k, const tok::Constant& c, std::string_view s)
{
    printf("@\\t%d\\n", k);
    fflush(stdout);
    print_tokens("C", k, c);
    constant::Copy copy {s};
    print_tokens("R", k, tok::constant<T>(copy));
}
''')
    out.append('int main() {\n' + '\n'.join(main) + '\nprintf("END\\n"); }')
    return '\n'.join(out) + '\n'


def constants(c):
    n = 6 if c.thorough else 1
    per = 16 if c.thorough else 7
    patterns = CONSTANT_CLASSES + CONSTANT_PATTERNS + CONSTANT_BOUNDS
    for name, k in (('SEARCH', 20), ('REAL', 10), ('CAPS', 16), ('ALT', 16), ('QUANTS', 24), ('ANCHORS', 24), ('CLASSES', 16),
                    ('NUMERIC', 12), ('HEUR', 16)):
        lst = getattr(C, name)
        patterns += vf.reduce_patterns(lst, k * n // 2, 'c13') + vf.reduce_patterns(lst, k * n // 2, 'c13/%d' % c.seed)
    for prof in ('mixed', 'alts', 'quants', 'anchors', 'literal', 'groups'):
        patterns += gen.profile(prof, 'c13', 5 * n) + gen.profile(prof, 'c13/%d' % c.seed, 5 * n)
    patterns = list(dict.fromkeys(patterns))

    plain = vf.Toolchain('g++', '-O2')
    ref = os.path.join(c.dir, 'reftool')
    err = plain.compile(os.path.join(vf.HARNESS, 'reftool.cpp'), ref + '.o')
    if err:
        raise vf.HarnessError('the model does not compile: ' + err)
    plain.link([ref + '.o'], ref)
    r = subprocess.run([ref, str(c.seed), str(per), '22'], input='\n'.join(p.hex() for p in patterns) + '\n',
                       capture_output=True, text=True, timeout=600)
    if r.returncode != 0:
        raise vf.HarnessError('the model failed: ' + r.stderr[-300:])
    by_pattern = {}
    for line in r.stdout.split('\n'):
        f = line.split('\t')
        if f[0] == 'I':
            by_pattern.setdefault(bytes.fromhex(f[1]), []).append((bytes.fromhex(f[2]), f[3] == '1', f[4]))
        elif f[0] == 'U':
            c.count('cases_not_modelled')
    cases = []
    for p, lst in by_pattern.items():
        for inp, reach, want in lst:
            cases.append(('regex', p, inp, want if reach else None))
    # every byte, with all the classes and some others
    sweeps = []
    for p in CONSTANT_CLASSES + vf.reduce_patterns(list(by_pattern), 20 * n, 'sweep/%d' % c.seed):
        bases = [i for i, r, w in by_pattern.get(p, []) if 0 < len(i) <= 3 and not w.startswith('-')]
        for base in (bases or [b'a'])[:1]:
            sweeps.append(('sweep', p, base, None))
    texts = [b'', b'a', b'a b', b'abc 12 d', b' a', b'a,b, c', b'if else x', b'aab', b'1.2 3', b'ab\n', b'a;1', b'zz  9']
    toks = []
    for it in tokgen.items(c, 48 if c.thorough else 16):
        for t in texts:
            toks.append(('tok', it.payload, t, None))

    def groups(lst, size):
        return [lst[i:i + size] for i in range(0, len(lst), size)]

    jobs = []
    for name in ('g++', 'clang++'):
        for opt in (('-O0', '-O2') if c.thorough else ('-O1',)):
            tool = vf.Toolchain(name, opt)
            if not compiles(c, tool, '#include <e_regex.hpp>\n'):
                if name == 'g++':
                    raise vf.HarnessError('%s does not compile the headers' % name)
                # Clang's opinion on the language does not matter
                c.cov['clang'] = 'does not compile the headers'
                continue
            jobs += [(tool, g) for g in groups(sweeps, 8) + groups(cases, 60) + groups(toks, 30)]
    with cf.ThreadPoolExecutor(vf.JOBS) as ex:
        for f in [ex.submit(constant_job, c, t, g) for t, g in jobs]:
            f.result()


def constant_job(c, tool, cases):
    if c.enough():
        return
    src = os.path.join(c.dir, 'k%d.cpp' % abs(hash((tool.cxx, id(cases), len(cases), str(cases[0])))))
    with open(src, 'w') as f:
        f.write(constants_tu([x[:3] for x in cases]))
    err = tool.compile(src, src + '.o')
    if err:
        if len(cases) > 1:
            h = len(cases) // 2
            constant_job(c, tool, cases[:h])
            constant_job(c, tool, cases[h:])
        elif tool.cxx.startswith('clang') and 'constant expression' not in err:
            c.count('cases_not_built_by_clang')
        else:
            kind, what, inp, want = cases[0]
            name = vf.tokenizer_id(what) if kind == 'tok' else what
            c.violation('constant', name, inp, 'not a constant expression: ' + err.replace(c.dir, ''), want or 'a constant expression')
        return
    tool.link([src + '.o'], src + '.exe')
    try:
        r = subprocess.run([src + '.exe'], capture_output=True, timeout=600)
    except subprocess.TimeoutExpired:
        raise vf.HarnessError('a constant program used up its wall clock limit')
    finally:
        for ext in ('', '.o', '.exe'):
            if os.path.exists(src + ext):
                os.remove(src + ext)
    out = r.stdout.decode('latin1').split('\n')
    got = {}
    last = 0
    for line in out:
        f = line.split('\t')
        if f[0] == '@':
            last = int(f[1])
        elif f[0] in 'CR' and len(f) == 4:
            got[(f[0], int(f[1]))] = (f[2], int(f[3]))
    if r.returncode != 0:
        kind, what, inp, want = cases[last]
        c.violation('crash', vf.tokenizer_id(what) if kind == 'tok' else what, inp, 'crash (%d)' % r.returncode, 'an answer')
        return
    for k, (kind, what, inp, want) in enumerate(cases):
        name = vf.tokenizer_id(what) if kind == 'tok' else what
        a, b = got[('C', k)], got[('R', k)]
        with c.lock:
            c.cov['evaluations'] += 2
            c.cov['distinct_nontrivial'] += a[0] not in ('-', '')
        c.count('constant_evaluations_' + tool.cxx)
        if kind == 'sweep':
            c.count('bytes_swept', 256 * (len(inp) + 1))
        if a != b:
            c.violation('constant', name, inp, 'constant %s, %d' % a, 'at run time %s, %d' % b)
        elif kind == 'regex' and want is not None:
            c.count('compared_with_oracle')
            seq = '|'.join(want.split('|')[:12])
            found = len([x for x in want.split('|') if x != '-'])
            if a[0] != seq or a[1] != min(found, 12):
                c.violation('constant', name, inp, '%s, %d in range-for' % a, want)
        if k % 97 == 0:
            c.sample('%s: constant %s on %s -> %s' % (tool.cxx, vf.show(name), vf.show(inp), a[0]))


# ---- threads

def threads(c):
    n = 6 if c.thorough else 1
    tool = vf.Toolchain('g++', '-O1', vf.TSAN, ['-g'])
    lists = vf.reduce_patterns(C.SEARCH, 24 * n, 'tsan') + vf.reduce_patterns(C.REAL, 16, 'tsan') \
        + vf.reduce_patterns(C.ANCHORS, 20 * n, 'tsan') + vf.reduce_patterns(C.QUANTS, 20 * n, 'tsan%d' % c.seed) \
        + vf.reduce_patterns(C.CAPS, 20 * n, 'tsan%d' % c.seed) + vf.reduce_patterns(C.NUMERIC, 10 * n, 'tsan%d' % c.seed) \
        + gen.profile('mixed', 'tsan%d' % c.seed, 20 * n) + gen.profile('quants', 'tsan%d' % c.seed, 12 * n)
    lists = list(dict.fromkeys(lists))
    tool_r = os.path.join(c.dir, 'thread.o')
    err = tool.compile(os.path.join(vf.HARNESS, 'thread_runner.cpp'), tool_r)
    if err:
        raise vf.HarnessError('the runner does not compile: ' + err)
    fleet = vf.Fleet(c, tool, vf.SEARCH | vf.ITERATE | vf.RANGE | vf.EXPR, '', runner='thread_runner.cpp', label='tsan')
    toks = vf.Fleet(c, tool, 0, '', runner='thread_runner.cpp', tu=vf.tokenizer_tu, label='tsan-tokens')
    lists = [vf.Item(p) for p in lists]
    tokens = tokgen.items(c, 24 * n)
    chunks = [(fleet, lists[i:i + 12]) for i in range(0, len(lists), 12)] + [(toks, tokens[i:i + 6]) for i in range(0, len(tokens), 6)]
    built = []
    with cf.ThreadPoolExecutor(vf.JOBS) as ex:
        for (f, _), r in zip(chunks, ex.map(lambda x: x[0].build(x[1]), chunks)):
            built += [(f, obj, items) for obj, items in r]
    # each program uses several threads
    with cf.ThreadPoolExecutor(2) as ex:
        for f in [ex.submit(thread_job, c, tool, tool_r, obj, items, f) for f, obj, items in built]:
            f.result()


def thread_job(c, tool, runner, obj, items, fleet):
    exe = obj + '.exe'
    tool.link([runner, obj], exe)
    page = exe + '.p'
    try:
        r = subprocess.run(['setarch', '-R', exe] if False else [exe, '--progress', page, '--seed', str(c.seed), '--threads', '8', '--rounds',
                           '6' if c.thorough else '3', '--rand', '60' if c.thorough else '30'], capture_output=True,
                           env={**os.environ, **vf.SAN_ENV}, timeout=900)
    except subprocess.TimeoutExpired:
        raise vf.HarnessError('a threaded program used up its wall clock limit')
    finally:
        for f in (exe, page, obj):
            if os.path.exists(f):
                os.remove(f)
    out = r.stdout.decode('latin1')
    names = b'  '.join(i.id for i in items)
    for line in out.split('\n'):
        f = line.split('\t')
        if f[0] == 'V':
            c.violation('concurrent', bytes.fromhex(f[3]), bytes.fromhex(f[4]), f[5], f[6], fleet.how(items[int(f[2])]))
        elif f[0] == 'K':
            with c.lock:
                c.cov['evaluations'] += int(f[3])
                c.cov['distinct_nontrivial'] += int(f[4])
            c.count('threaded_operations', int(f[3]))
            c.count('operations_overlapping_another_thread', int(f[4]))
            c.count('threaded_programs')
    if r.returncode == 66 or b'WARNING: ThreadSanitizer' in r.stderr:
        c.violation('race', names, b'', vf.crash_summary(r.stderr), 'no data race',
                    {'stderr': r.stderr.decode('latin1')[-4000:]})
    elif r.returncode in (-9, 78, 79):
        raise vf.HarnessError('a threaded program ended with %d' % r.returncode)
    elif r.returncode != 0:
        c.violation('crash', names, b'', 'crash of a threaded program (%d): %s' % (r.returncode, vf.crash_summary(r.stderr)),
                    'an answer', {'stderr': r.stderr.decode('latin1')[-4000:]})
