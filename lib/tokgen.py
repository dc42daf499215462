"""Tokenizers: curated and random lists of definitions."""
import random

import gen
import vf

CURATED = [
    # (README)
    [('T0', r'[a-z]+'), ('T1', r'\d+'), ('sep', r'\s')],
    [('T0', r'[a-z]+'), ('T1', r'\d+'), ('sep', r'\s+')],
    [('T0', r'[a-z]+'), ('T1', r'\d+'), ('T2', r'[+*/=-]'), ('sep', r'\s*')],
    # keywords and identifiers: ties go to the first, the longest wins
    [('T0', r'if'), ('T1', r'else'), ('T2', r'[a-z]+'), ('T3', r'[a-z0-9]+'), ('sep', r' ')],
    [('T2', r'[a-z]+'), ('T0', r'if'), ('T1', r'else'), ('sep', r' ')],
    [('T0', r'a'), ('T1', r'ab'), ('T2', r'abc'), ('sep', r',')],
    [('T2', r'abc'), ('T1', r'ab'), ('T0', r'a'), ('sep', r',')],
    [('T0', r'a'), ('T1', r'aa'), ('T2', r'aaa'), ('T3', r'aaaa'), ('sep', r'b'), ('sep', r'bb')],
    [('T0', r'\d+'), ('T1', r'\d+\.\d+'), ('T2', r'\d+\.\d+\.\d+'), ('sep', r' ')],
    # several separators: the longest
    [('T0', r'a+'), ('sep', r','), ('sep', r', '), ('sep', r',  ')],
    [('T0', r'a+'), ('sep', r',  '), ('sep', r', '), ('sep', r',')],
    [('T0', r'a+'), ('sep', r'b'), ('sep', r'bc'), ('T1', r'c+a')],
    # separators that tokens could begin with
    [('T0', r'[ab]+'), ('sep', r'b')],
    [('T0', r'ba'), ('T1', r'a'), ('sep', r'b')],
    [('T0', r'a'), ('sep', r'a')],
    [('T0', r'a'), ('sep', r'aa')],
    [('T0', r'aa'), ('sep', r'a')],
    # none
    [('T0', r'a+')],
    [('T0', r'[a-z]+'), ('T1', r'\d+')],
    [('T0', r'.+')],
    [('T0', r'a|b|cd')],
    # alternations in definitions: every branch counts
    [('T0', r'a|bc'), ('T1', r'b|cd'), ('sep', r' |,')],
    [('T0', r'if|else|while'), ('T1', r'[a-z]+'), ('sep', r'\s|,')],
    [('T0', r'GET|POST'), ('T1', r'/[a-z/]*'), ('T2', r'HTTP/\d\.\d'), ('sep', r' ')],
    [('T0', r'(a|b)c'), ('T1', r'(?:a|b)d'), ('sep', r'-|--')],
    # groups, captures and quantifiers
    [('T0', r'(\d+)-(\d+)'), ('T1', r'(\d+)'), ('sep', r'(;|,)+')],
    [('T0', r'"[^"]*"'), ('T1', r'[a-z]+'), ('sep', r'[ ,]+')],
    [('T0', r'"(?:[^"\\]|\\.)*"'), ('T1', r'\w+'), ('sep', r' *, *')],
    [('T0', r'a{2}'), ('T1', r'a{3}'), ('T2', r'a{4,6}'), ('sep', r'b{1,2}')],
    [('T0', r'a+?b'), ('T1', r'a+'), ('sep', r'c')],
    [('T0', r'a*+b'), ('T1', r'a*'), ('sep', r'c')],
    [('T0', r'\w+'), ('T1', r'\W+'), ('sep', r'_')],
    # definitions that match nothing
    [('T0', r'a*'), ('T1', r'b*'), ('sep', r',')],
    [('T0', r'a?'), ('T1', r'a?b?'), ('sep', r',?')],
    [('T0', r'a*'), ('sep', r',*')],
    [('T0', r'a'), ('sep', r' *'), ('T1', r'b')],
    # anchors
    [('T0', r'a$'), ('T1', r'a'), ('sep', r',')],
    [('T0', r'\n+'), ('T1', r'[a-z]+'), ('sep', r' ')],
    [('T0', r'[a-z]+'), ('sep', r'\n')],
    # bytes
    [('T0', b'[\x80-\xff]+'), ('T1', rb'\x01'), ('sep', rb'\x00')],
    [('T0', b'[\xc3-\xc5][\x80-\xbf]'), ('T1', b'[a-z]'), ('sep', b'\xff')],
    [('T0', rb'[^ ]+'), ('sep', rb' +')],
    [('T0', rb'\N+'), ('sep', rb'\n')],
    [('T0', rb'.+'), ('sep', rb'\n+')],
    # many
    [('T0', r'a'), ('T1', r'b'), ('T2', r'c'), ('T3', r'd'), ('T4', r'e'), ('T5', r'f'), ('T6', r'g'), ('T7', r'h'), ('sep', r' ')],
    [('T7', r'h'), ('T6', r'g+'), ('T5', r'f'), ('T4', r'e+'), ('T3', r'd'), ('T2', r'c'), ('T1', r'b'), ('T0', r'a+'),
     ('sep', r' '), ('sep', r'-'), ('sep', r'--')],
    [('sep', r' '), ('T0', r'\('), ('T0', r'\)'), ('T1', r'[+*/-]'), ('T2', r'\d+'), ('sep', r'  ')],
    [('sep', r','), ('T0', r'[a-z]+'), ('sep', r';'), ('T0', r'\d+')],
    # same type twice
    [('T0', r'a'), ('T0', r'bb'), ('T1', r'b'), ('T0', r'aab'), ('sep', r' ')],
    # a longer token needs what follows
    [('T0', r'[a-z]+'), ('T1', r'[a-z]+='), ('T2', r'[a-z]+=\d+'), ('sep', r' ')],
    [('T0', r'<'), ('T1', r'<='), ('T2', r'<<='), ('T3', r'<<'), ('T4', r'='), ('T5', r'\w+'), ('sep', r' ')],
    [('T0', r'0x[0-9a-f]+'), ('T1', r'\d+'), ('T2', r'[a-z]\w*'), ('sep', r' ')],
    [('T0', r'//[^\n]*'), ('T1', r'/'), ('T2', r'\w+'), ('sep', r'[ \n]+')],
]

PIECES = [b'[a-z]+', rb'\d+', b'a', b'b', b'ab', b'a+', b'b+', b'[ab]+', b'a|b', b'a|bc', b'(a)(b)?', b'ab?', rb'\w+', b'[^ ,]+',
          b'aa', b'abc', b'(?:ab)+', b'a*', b'a{2,3}', b'c', b'cc', rb'\d+\.\d+', rb'-?\d', b'[abc]', b'b*c', b'a+?b', b'.', b'ba']
SEPS = [b' ', b',', rb'\s', rb'\s+', b', ', b' *, *', b'b', b'c+', b'[ ,]+', b' |,', b'-', b'--', b'a', b'bc?', rb'\n', b' ?', b'c|cc', b'bb']


def generate(seed, n):
    r = random.Random('tok/%s' % seed)
    other = gen.profile('mixed', 'tok%s' % seed, 3 * n, maxlen=14)
    out = []
    for _ in range(n):
        defs = []
        for _ in range(r.choice([1, 2, 2, 3, 3, 4, 5])):
            defs.append((r.choice(['T0', 'T1', 'T2', 'T3', 'T4', 'T5', 'T6', 'T7']),
                         r.choice(PIECES) if r.random() < .75 else r.choice(other)))
        for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3])):
            defs.append(('sep', r.choice(SEPS)))
        r.shuffle(defs)
        if all(k == 'sep' for k, _ in defs):
            continue
        out.append(defs)
    return out


def items(check, n):
    defs = [[(k, p.encode('latin1') if isinstance(p, str) else p) for k, p in d] for d in CURATED]
    if n < len(defs):
        r = random.Random('cur%d' % check.seed)
        return [vf.Item(vf.tokenizer_id(d), 0, d) for d in r.sample(defs, n)]
    rest = n - len(defs)
    defs += generate('fixed', rest // 2) + generate(check.seed, rest - rest // 2)
    return [vf.Item(vf.tokenizer_id(d), 0, d) for d in defs]
