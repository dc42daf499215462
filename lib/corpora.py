"""Hand written patterns, and systematic combinations, per theme."""
import itertools


def lines(text):
    return [l.encode('latin1') for l in text.strip('\n').split('\n') if l.strip()]


REAL = lines(r'''
(\d+)-(\d+)-(\d+)
\d{4}-\d{2}-\d{2}
(\d{4})-(\d{2})-(\d{2})[T ](\d{2}):(\d{2})(?::(\d{2}))?
[\w\.+-]+@[\w\.-]+\.[\w\.-]+
[\w]+://[^/\s?#]+[^\s?#]+(?:\?[^\s#]*)?(?:#[^\s]*)?
(?:(?:25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9])\.){3}(?:25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9])
[a-zA-Z_][a-zA-Z0-9_]*
-?\d+(?:\.\d+)?(?:[eE][+-]?\d+)?
"[^"]*"
"(?:[^"\\]|\\.)*"
<([a-z]+)>
<([a-z]+)( [a-z]+="[^"]*")*>
#[0-9a-fA-F]{6}
0x[0-9a-fA-F]+
\s*(\w+)\s*=\s*(\w+)\s*;
(GET|POST|PUT|DELETE) ([^ ]+) HTTP/(\d)\.(\d)
([a-z]+)://([^/:]+)(?::(\d+))?(/[^ ]*)?
\$\{[a-z]+\}
//[^\n]*
/\*[^*]*\*/
(?:[a-z]+,)*[a-z]+
^\s*#.*$
^[^:]+: .*$
[+-]?(?:\d+\.\d*|\.\d+|\d+)
(true|false|null)
[A-Z][a-z]+ [A-Z][a-z]+
\(\d{3}\) \d{3}-\d{4}
(\w+)\s(\w+)
[^,]*,[^,]*,[^,]*
(\d+)([kKmMgG]i?)?[bB]?
''')

SEARCH = lines(r'''
a
ab
abc
abcd
a|b
abc|d
a(a*)
ab*c
aab
aabaac
abab
ababc
aaab
abcabd
[ab]c
[^a]b
.b
..
a.c
a..b
\d\d
\w\w\w
\s
a\s
(a)(b)
a(b)c
(?:a)b
(?:ab)+c
a?b
a??b
a+b
ba+
ba*
ba?b
[ab]+c
[ab]*c
(ab|ba)
ab|ba
a|ab
ab|a
(abc|ab)d?
x*
x*y
.*
.+
.*a
.*b.
.a.*
a.*a
a.*b
a+a
a*a
a{2}a
a{2,}a
a{2,3}b
aa|b
(a+)(b+)
(a*)(b*)
(a*)b
(?:a*)b
abcdefghijklmnopqrstuvwxyz
aaaaaaaaaaaaaaaaaaaab
needle
xneedlex?
[a-m]+[n-z]+
[a-z]+\d+[a-z]+
''')

# Literals that begin again inside of themselves
OVERLAP = lines(r'''
\x{616162}
\x{6162616263}
\o{141141142}
\o{141142141143}
\x{6161}
x\x{616162}
\x{616162}$
\x{616162}|\x{6163}
(\x{616162})+
\x{616162}\x{616163}
a\x{6162}
aab
aaab
abac
ababac
aabaaab
(?:aab)+c
(aa)ab
abab|aba
aa?b
''')

QUANT_ATOMS = [b'a', b'.', b'[ab]', b'[^a]', b'(a)', b'(?:ab)', b'(ab)', rb'\w', rb'\d', b'(a|b)', b'(?:a|bc)', b'(a+)',
               b'(?:ab?)', b'(?:a(b)?)', rb'\x61', rb'\x{6162}', b'(?:a|b|c)', b'((a)b)', b'(?:a*)', b'(b?)']
QUANT_QS = [b'*', b'+', b'?', b'{0}', b'{1}', b'{2}', b'{3}', b'{0,1}', b'{0,2}', b'{1,2}', b'{1,3}', b'{2,3}', b'{0,}', b'{1,}',
            b'{2,}', b'{3,}', b'{2,4}']
QUANT_SUF = [b'', b'?', b'+']
QUANT_NEXT = [b'', b'a', b'b', b'c', b'ab', b'(a)', b'[ab]', b'a*', b'b?', b'$', b'(?:b|c)', b'(b)c', b'.', b'b+']


def quant_matrix():
    return [a + q + s + n for a, q, s, n in itertools.product(QUANT_ATOMS, QUANT_QS, QUANT_SUF, QUANT_NEXT)]


NULLABLE_ATOMS = [b'(?:a?b?)', b'(a?)', b'(a|b?)', b'(?:a*b?)', b'(?:a?|b)', b'(a*)', b'(?:(a)?b?)', b'(?:b?(a?))', b'((a?)b?)', b'(?:a{0,2})',
                  b'(?:a*?b??)', b'(?:^|a)', b'(?:a|$)']


ALTERNATING = [w % (b + q) + t for b in (b'(?:a|bc)', b'(?:ab|c)', b'(a|bc)', b'(?:a|bcb)', b'(?:abc|b)', b'(?:a|b?c)', b'(?:(?:a|bb)|c)', b'(?:[ab]c|a)',
                                         b'(?:a(?:b|ca))', b'(?:ab|a|b)')
               for q in (b'{0,2}', b'*', b'+', b'{1,3}', b'{2,}', b'*?', b'+?', b'{1,4}?') for t in (b'b', b'bc', b'ab', b'c', b'(a)', b'[bc]b', b'a*b')
               for w in (b'%s', b'c?%s', b'(%s)')]
ZERO = [h + q + s + n for h in (b'a', b'(a)', b'[ab]', b'(?:ab)', b'(a|b)', rb'\d') for q in (b'{0,0}', b'{0}') for s in (b'', b'?', b'+')
        for n in (b'', b'b', b'a+', b'(a)')]


def nullable_matrix():
    """Repetitions whose body may be empty."""
    qs = [b'*', b'+', b'{2}', b'{3}', b'{2,}', b'{0,3}', b'{1,4}', b'{3,5}']
    nexts = [b'', b'c', b'a', b'bc', b'$', b'(c)', b'a?b']
    return [w % (h + a + q + s) + n for w, h, a, q, s, n in
            itertools.product([b'%s', b'(%s)', b'(?:%s|b)'], [b'', b'^', b'c'], NULLABLE_ATOMS, qs, QUANT_SUF, nexts)]


def removal_matrix():
    """Repetitions that the optimizer is documented to make possessive, next to some of which it must not."""
    bodies = [b'a', rb'\d', rb'\w', rb'\s', rb'\D', b'[a-c]', b'[^b]', b'[^x-z]', b'(a)', b'(?:ab)', b'(?:a|c)', rb'\x61', rb'\x{6162}', rb'\n', b'.',
              b'[\x80-\xff]', b'[aeiou]', b'(?:a+c)', b'[0-9a-f]', rb'\t']
    qs = [b'*', b'+', b'?', b'{2,}', b'{0,3}', b'{1,4}', b'{3,20}', b'+?', b'{1,}?', b'{1,3}?', b'{2,5}?']
    after = [b'b', b'x', b'5', b'[x-z]', rb'\W', rb'\D', rb'\S', b'(x)', b'(?:x|y)', b'x+', b'x?y', b'x*?b', rb'\n', rb'\x78', b'[^a]', b'\xe9', b'(x|(5))',
             b'(?:x|z)', b'A', b' ']
    wraps = [b'%s', b'(%s)', b'(?:%s|q)', b'%s|q', b'q(%s)-', b'(?:%s)+-', b'(?:-%s)+-', b'(-%s)*?-', b'(?:(?:-%s)?q)*+']
    seps = [rb'\d+\s+\w+', b'a+b+c+d', rb'[a-z]+\d*?:\d+', b'(a+)(b+)(c+)d', b'a*b*c*d', b'a?b?c?d', rb'\w+@\w+\.com', rb'(\d+)-(\d+)-(\d+)x',
            b'a+?b+?c+?d', rb'\s*(\w+)\s*=\s*(\w+);']
    return seps + [w % (b + q + a) for w, b, q, a in itertools.product(wraps, bodies, qs, after)]


def follow_matrix():
    """A repetition, something that may be empty, and what may then decide how much was too much."""
    heads = [b'a*', b'a+', b'[ab]*', b'[^c]+', b'a{1,}', b'a{2,}', b'a*?', b'a+?', b'a{0,3}', b'a{1,3}?', b'(a)*', b'(?:a|b)*', b'(a+)', b'(?:ab)*',
             b'a?', rb'\w*', b'.*']
    middles = [b'', b'(b?)', b'(?:b?)', b'(b*)', b'(b?)(c?)', b'b?', b'b*?', b'(b{0,2})', b'(?:b?|c?)', b'(?:b?c?)', b'b?c?', b'(?:(b)|c)?', b'(b??)',
               b'(?:b*c)?', b'(?:b|c)*', b'(^b)?', b'((b)?)', b'(?:(?:b?))', b'b{0}', b'[^a]?', b'[bc]*']
    tails = [b'a', b'[ab]', b'(a)', b'(?:a|d)', b'$', b'', b'a*', b'b', b'ab', b'.']
    wraps = [b'%s', b'^%s', b'(%s)a', b'(?:%s)+', b'(?:%s|b)a']
    return [w % (h + m + t) for w, h, m, t in itertools.product(wraps, heads, middles, tails)]


NULLABLES = [b'b?', b'b*', b'(b)?', b'(?:b?c?)', b'b??', b'b*?', b'(b){0,2}', b'b?+', b'(?:b|c)?', b'(?:bc)*', b'(?:b{0})', b'(?:$)', b'(?:b?|c)']
AROUND = [b'%s', b'(%s)', b'(?:%s)', b'(?:%s){2}', b'(%s){3}', b'(?:%s){2,}', b'(?:%s){1,3}', b'(%s)+', b'(?:%s)+?', b'(?:%s){2,4}?', b'(?:%s)++',
          b'(?:%s){2,3}+', b'(?:%s)?', b'(?:%s)??', b'(?:%s|d)', b'(?:d|%s)', b'(d|%s)', b'(?:d?%s)', b'(?:(?:%s)(?:%s))', b'((%s))']


def middles_matrix(heads=(b'a*', b'[ab]+', b'a{1,3}?'), tails=(b'a',)):
    """All ways to write something that may be empty, all ways to put it between what is repeated and what needs some
    of that: what begins there is both."""
    out = []
    for h, w, m, t in itertools.product(heads, AROUND, NULLABLES, tails):
        if not (m.endswith((b'?', b'*', b'+', b'}')) and w.startswith(b'%s')):
            out.append(h + w.replace(b'%s', m) + t)
    return out + [h + m + t for h, m, t in itertools.product(heads, NULLABLES, tails)]


GIVEN_HEADS = [b'', b'a', b'ab', b'a?', b'a??', b'a?+', b'a*', b'a*?', b'a*+', b'a{2}', b'a{2}?', b'a{2}+', b'a{2,}+', b'(a)', b'(?:a)', b'(a|b)', b'(?:a|c?)',
               b'(?:a*)', b'[ab]', b'[^b]', b'.', rb'\x61', b'^', b'(?:^|a)', b'a{1,2}', b'(?:ab?)+', b'(a)?', b'(?:a|b)*?']
GIVEN = [b'b*', b'b+', b'b*?', b'b+?', b'b?', b'b??', b'b{1,3}', b'b{1,3}?', b'.*', b'[ab]+?', b'(b)*', b'(?:b|c)+', b'(?:ab)*', b'(bc?)+?', b'b{2,}']
GIVEN_TO = [b'b', b'(b)', b'[ab]', b'(?:b|c)', b'b{2}', b'b+', b'bb', b'(?:bc|b)', b'b$', b'c?b', b'(c|b)c?', b'b*b', b'(?:ab)?b', b'b+?c', b'b{1,2}+b']
GIVEN_WRAPS = [b'(%s)%s', b'(?:%s)%s', b'((%s))%s', b'(?:(%s)|c)%s', b'(c|%s)%s', b'(?:(?:%s)%s)+', b'x?(%s)%s', b'((%s)%s)b', b'(?:c(%s)%s|a)', b'(%s|a)%s',
               b'(?:c|b(%s))%s', b'((?:c?)%s)%s']


def given_matrix(heads=GIVEN_HEADS, given=GIVEN, to=GIVEN_TO, wraps=GIVEN_WRAPS):
    """A repetition that ends a group, after something, has to leave some for what comes after the group."""
    return [w % (h + g, t) for h, g, t, w in itertools.product(heads, given, to, wraps)]


def given_core():
    out = []
    for k, h in enumerate(GIVEN_HEADS):
        for j, g in enumerate([b'b*', b'b+?', b'(b)*', b'b??']):
            out += given_matrix([h], [g], [GIVEN_TO[(k + j) % 3]], [GIVEN_WRAPS[(k + j) % 2]])
    return out


def set_matrix():
    """Sets with everything that has to be told apart in them."""
    parts = [b'a', b'c', rb'\-', rb'\]', rb'\\', rb'\^', b'^', b'.', b'0-9', b'a-c', rb'\d', rb'\s', rb'\w', b'(', b')', b'|', b'*', b'$', b'{', b'}', b'[',
             b',', rb'\.', rb'\[', rb'\(', b'\xe9', b'/', b'x-z', rb'\n', b'+', b'?']
    out = []
    for n in ('[', '[^'):
        n = n.encode()
        for t in itertools.permutations(parts, 2):
            out.append(n + b''.join(t) + b']')
        for t in itertools.permutations(parts[:12], 3):
            out.append(n + b''.join(t) + b']')
        for t in parts:
            out += [n + t + b']', n + t + b'-]', n + b'-' + t + b']', n + t + b']+' + b'a', b'(' + n + t + b']|b)c']
    # a caret in first place negates, and needs something to
    return [p for p in dict.fromkeys(out) if b'[^]' not in p]


GROUP_BRANCHES = [b'(a)', b'b', b'(c)(d)', b'(?:e)', b'(?:f(g))', b'[h]', b'((i)j)', b'(k)?l', b'(m|n)', b'(?:(o)|p)']


def group_branches():
    """Which number a group has, after branches with and without groups."""
    out = []
    for w in (b'%s', b'(%s)', b'(?:%s)(z)', b'(?:%s)+', b'(y)(?:%s)?(z)', b'(?:%s)|(z)'):
        for t in itertools.permutations(GROUP_BRANCHES, 3):
            out.append(w % b'|'.join(t))
    for t in itertools.permutations(GROUP_BRANCHES[:6], 4):
        out.append(b'|'.join(t))
    return out


QUANTS = lines(r'''
a{10}
a{10}b
a{11,13}
a{9,10}b
a{10,}
a{10,}b
(a){10}
(?:ab){10}
(?:ab){10,12}c
[ab]{12}c
a{0,10}b
a{2,10}b
a{10,20}?b
a{10,12}+b
a{20}
\d{10,}
.{15}
.{10,}b
(?:a|b){10}c
(a{2}){3}
(a{2}){3}b
(?:a{1,2}){2}b
(?:a{2}b){2}
(?:a{2}b?){2,3}c
(a?){3}
(a?){2,3}b
(a*){2}
(a*)*
(a*)+
(a+)*
(a+)+b
(?:a*)*b
(?:a*)+b
(?:a?)*b
(?:a?b?)*c
(?:a*b*)*c
(a|b*)*c
a{100}
a{99,101}
[ab]{100}
(?:ab){64}
a{255}
a{256}
a{257}b
a*?
a+?
a??
a*?$
a+?$
a{1,3}?$
^a*?$
^a+?b
^a*+b
^a?+b
a++a
a*+a
a?+a
a{2,3}+a
[ab]*+c
[ab]*+b
.*+a
.*?a
.+?a
.??a
.{2,3}?a
.{2}a
a{3}a{2}
a{2}a{0,2}a{3}b
a*a*a*b
a+a+a+b
a?a?a?aaa
a?a?a?a?aaaa
a??a??a??aaa
a*?a*?b
a*?b*?c
(a*?)(b*?)c
(a+?)(a*)
(a*)(a+?)b
(a??)(a??)b
(a{1,2}?)(a*)
(a{1,2})(a{1,2})
(a{1,2})(a{2,3})(a*)
[ab]{2,3}[bc]{2,3}
\d+\s+123
\d+?1
\w+?\d
\w+\d
\w*\d\d
\s*\S+
.*\d
.*\d+
.*?\d+
.*?\d+?b
a+.*b
a+.+b
a+.?b
[^b]*b
[^b]+b
[^ab]*b
[^b]*a
a[^a]*a
a.*a.*a
a.*?a.*?a
(a.*)(b.*)
(a.*?)(b.*?)c
''')

ALT = lines(r'''
a|b
a|b|c
a|b|c|d|e
a|b|c|d|e|f|g|h
ab|ac|ad
ab|a
a|ab
abc|ab|a
a|ab|abc
a|a
ab|ab
(a|b)
(a|b|c)
(?:a|b)c
(?:ab|cd)e
(ab|cd)(ef|gh)
(a|b)(c|d)(e|f)
a(b|c)d
a(?:b|c)d
a(b|c|d)e
a(bc|b)
a(b|bc)
(a)|b
(a)|(b)
(a)|(b)|(c)
(a)(b)|(c)
(a)b|(c)d
(a)b|a(c)
(a)b|(a)c
(a)b|ac
(ab)c|(a)bd
(a)(b)c|(a)bd
(?:(a)b|a)c
(?:(a)b|(a)c)d
a(?:(b)c|(b)d)e
((a)b|(a)c)
(?:(a)(b)|(a)c)
(?:(a)|b)+
(?:(a)|(b))+
(?:(a)|(b)|(c))+
((a)|(b))+
(?:(a)b|(a)|(b))+
(?:a(b)?|c)+
(?:a|(b)c|b)+
(a|b)*
(a|b)+c
(a|b)*?c
(?:a|b)*c
(?:a|b){2}
(?:a|b){2,3}c
(?:ab|ba)+
(?:ab|ba)*c
(?:a|bb|ccc)+
(?:aa|b)+c
a*|b
b|a*
a+|b+
(a+|b+)c
(a*|b+)c
(?:a+|b)c
a?|b
a??|b
|a
a|b*c
ab*|c
ab+|ac+
a[bc]|d
[ab]|c
[^a]|a
\d|a
\d+|[a-z]+
\d+|[a-z]+|\s+
foo|bar|baz
foobar|foo
foo|foobar
(foo|foobar)
(foobar|foo)bar?
(cat|dog|bird|fish|cow|pig)
(?:cat|dog|bird|fish|cow|pig)s?
one|two|three|four|five|six|seven|eight|nine|ten
(one|two|three)(four|five|six)
(a|(b|(c|d)))
(?:a|(?:b|(?:c|d)))e
((((a)|b)|c)|d)
(a(b|c)|d(e|f))
(?:a(?:b|c)|d(?:e|f))g
(a|b)|(c|d)
(?:(?:a|b)|(?:c|d))e
((a|b)c|(d|e)f)g
a(b(c|d)|e)|f
x(?:a|b|)y
^a|b
a|^b
a$|b
a|b$
^a|^b
^(?:a|b)$
^a$|^b$
(?:^a|b)c
(?:a$|b)
(a$|b)
a\|b
a|\||b
a|\(|b
(\(|\))
[|]|a
(a|[|])b
a{2}|b{2}
a{2}|a{3}
(?:a{2}|b){2}
a.|b.
a.c|b.d
.a|.b
(.a|.b)c
a.*|b
.*a|b
(a|b)(?:a|b)
(a|b)?c
(a|b)??c
(a|b){2}c
(a|b){1,2}c
(ab|c)+d
(ab|c)*d
(?:ab|c)+?d
abc|abd|abe
(abc|abd|abe)f
a(?:bc|bd|be)f
''')
ALT = [p for p in ALT if b'|)' not in p and not p.startswith(b'|')]

ALT_PARTS = [b'a', b'b', b'ab', b'ac', b'(a)', b'(a)b', b'a(b)', b'[ab]', b'a+', b'b*', b'(b)?c', b'(?:ab)', b'(a|b)c', b'a*b', b'aa']
ALT_WRAP = [b'%s', b'(%s)', b'(?:%s)c', b'(%s)d', b'(?:%s)+', b'(%s)*c', b'c(%s)', b'(?:c(?:%s)|d)', b'(%s)?', b'(?:%s){2}']


def alt_matrix():
    out = []
    for w in ALT_WRAP:
        for a, b in itertools.permutations(ALT_PARTS, 2):
            out.append(w % (a + b'|' + b))
    for w in ALT_WRAP[:5]:
        for a, b, c in itertools.permutations(ALT_PARTS[:9], 3):
            out.append(w % (a + b'|' + b + b'|' + c))
    return out


CAPS = lines(r'''
(a)
(a)(b)
(a)(b)(c)
(a)(b)(c)(d)(e)(f)
(a)(b)(c)(d)(e)(f)(g)(h)(i)(j)(k)(l)
(((((a)))))
(a(b(c(d(e)))))
(((((a)b)c)d)e)
((a)(b))((c)(d))
((a)(b(c)))(d(e))
(a)(?:b)(c)
(?:a)(b)
(?:(a))(b)
(?:(?:(a)))(b)
(?:(a)(b))(c)
(?:a(b)c)(d)
(a)|(b)
(a)|(b)(c)|(d)
((a)|(b))
((a)|(b))(c)
(a(b)|c(d))
(a(b)|c(d))(e)
(a)?(b)
(a)*(b)
(a)+(b)
(a){2}(b)
(a)??(b)
(a)*?(b)
(a)+?(b)
(a)?b
(a)?(b)?(c)?
(a)?(b)?(c)?d
(?:(a)|b)*
(?:(a)|(b))*
(?:(a)|(b))*c
(?:(a)(b)?)+
(?:(a)(b)?)+c
(?:(a)b?)+
(?:(a)|b)+c
(?:(a)b)*c
((a)b)*c
((a)|b)*c
((a)(b)?)*c
((a)?b)*c
((a)?(b)?)*c
(a*)
(a*)b
(a*)(a*)
(a*)(b*)(c*)
(a+)(a+)
(a+)(a?)
(a?)(a+)
(a?)(a?)(a?)
(a*?)(a*)
(a+?)(a+)
(.)(.)
(.)(.*)
(.*)(.)
(.*)(.+)
(.+)(.+)
(.+?)(.+)
(.*)a(.*)
(.*?)a(.*)
(.*)a(.*?)
(.*?)a(.*?)b
([ab]*)([bc]*)
([ab]+)([bc]+)
([ab]+?)([bc]+)
(\d+)(\w*)
(\w+)(\d+)
(\w*)(\d)
(\d+)-(\d+)
(\d+)-(\d+)-(\d+)
(\w+) (\w+)
(\w+)@(\w+)\.(\w+)
a(b)c
a(b)?c
a(b)*c
a(b)+c
a(b|c)d
a(b)|a(c)
ab(c)|a(bd)
a(b)c|ab(d)
(a)bc|a(b)d
(ab)(c)|(ab)(d)
(a)(b)c|(a)(b)d
(?:(a)b|(a)c)(d)
(?:x(a)|y(b))(c)
(^a)(b)
(a)(b$)
(^)(a)
(a)($)
(a{2})(a)
(a{2}){2}
(a{1,2})(a)
((a){2}b){2}
((a|b){2})(c)
(a(b)?)+
(a(b)?)+c
(a(b)*)+
(a(b)*)+c
(?:a(b)*)+
(?:a(b)?c)*
(x(a)?y)*z
(x(a)?|(b)y)*z
(x|(a)(b))*z
()a
(a)()
a()b
(a)\(b\)
\((a)\)
(\()(\))
([(])a([)])
([)])(a)
(\))(a)
(a)[(](b)
(\\)(a)
(\\\()(a)
''')
CAPS = [p for p in CAPS if b'()' not in p]

CLASSES = lines(r'''
[a]
[ab]
[abc]
[a-c]
[a-z]
[a-zA-Z]
[a-zA-Z0-9_]
[0-9]
[a-a]
[a-cx-z]
[a-c0-3_]
[ab-d]
[a-cd]
[a-cb-d]
[^a]
[^ab]
[^a-c]
[^a-z]
[^a-zA-Z0-9]
[^0-9]
[^a-a]
[^a-cx-z]
[^\n]
[\n]
[\s]
[\S]
[\d]
[\D]
[\w]
[\W]
[^\s]
[^\S]
[^\d]
[^\D]
[^\w]
[^\W]
[\s\d]
[\s\S]
[\d\D]
[^\s\d]
[\w\s]
[^\w\s]
[\da-f]
[^\da-f]
[a\d]
[a\db]
[\d-]
[-\d]
[-a]
[a-]
[^-a]
[^a-]
[-]
[^-]
[.]
[^.]
[*]
[+]
[?]
[$]
[^$]
[|]
[^|]
[(]
[)]
[()]
[^()]
[}]
[^}]
[\]]
[^\]]
[\[]
[a\]b]
[^a\]b]
[\\]
[^\\]
[\\a]
[\^]
[\^a]
[a^]
[a^b]
[^^]
[^a^]
[\-]
[a\-c]
[^a\-c]
[\.]
[\*\+]
[ ]
[ -/]
[!-~]
[^!-~]
[:-@]
[/]
["]
[']
[#]
[,;]
[a,b]
[\t]
[\r\n]
[\f]
[\a]
[\e]
[^\t\r\n]
[\N]
[^\N]
.
..
\d
\D
\w
\W
\s
\S
\n
\N
\t
\r
\f
\a
\e
\.
\*
\+
\?
\(
\)
\[
\]
\{
\}
\|
\^
\$
\\
\-
\/
[ab][cd]
[ab]+[cd]+
[^ab][^cd]
[^ab]+[ab]+
[a-c]+[b-d]+
[a-c]*[b-d]
[^a]*a
[^a]+a
[^a]?a
[a-z]+[0-9]+
[a-z]*z
[^z]*z
\d+\D+
\D+\d+
\w+\W+
\W+\w+
\s+\S+
\S+\s+
\w+\d
\d+\w
\W+\s
\s+\W
\D+\w
\S+\w
\w*\W
\d*[a-f]
[a-f]*\d
[\w]+[-]
.\n
\n.
.*\n
[^\n]*\n
(?:.|\n)*a
([^a])([^b])
([\d])([\D])
([a-c]|[x-z])
[a-c]|[x-z]
[^a-c]|b
(?:[ab]|[cd])+e
[ab]{2}[cd]{2}
[^a]{2}a
[a-z]{2,3}\d
a\db
a\Db
\d\w\s
\s\d\w
a.b
a[^b]c
a[.]b
a[*]b
x[^\w]y
[{]
[}]
[{}]+
[^{}]
[^{}]+a
[[]
[^[]
[[a]+
[a[]b
[{]{2}
[{,}]{1,2}a
a[{]|b
a|[[]|b
(a[{(]b)c
([[(]a|b)c
(?:[[{(]x)+
"[^"{]*"
[[{(].*[)}]?
[!-/:-@[-`{-~]+
[{-}]+
[Z-[]
\[{2}a
\[[[]\]
\{[^{]*\}
[(){}*+?.]+
[-+*/]
[+-]?\d
[\w.-]+@
[-a]b
[a-]b
[^-a]b
[^a-]b
[a-c-]+x
[\d-]+x
[,-]a
''')


def class_matrix():
    """Every pair of classes next to each other, with quantifiers that invite the heuristics."""
    cs = [rb'\d', rb'\D', rb'\w', rb'\W', rb'\s', rb'\S', b'.', rb'\n', b'[a-f]', b'[^a-f]', b'[0-4]', b'[^0-4]', b'[5-9a]', b'_',
          b'a', b'0', b'[ -/]', rb'[\t-\r]' if 0 else rb'[\t\r]', b'[z_]', b'[^\\W]', b'[A-Z]', rb'[\s\d]', rb'\x{6162}', b'(?:ab|c)',
          b'[g-z]', b'[f-h]', b'[/-:]', b'[@-Z]', b'[^_]']
    qs = [b'+', b'*', b'+?', b'*?', b'?', b'{1,3}', b'{2}']
    return [a + q + b for a, b in itertools.product(cs, cs) for q in qs]


ANCHORS = lines(r'''
^
$
^$
^a
a$
^a$
^a*$
^a*
a*$
^.*$
^.+$
^.
.$
.*$
^a|b
a|^b
^a|^b
a$|b
a|b$
a$|b$
^(a)
(^a)
(^a)b
(?:^a)b
(?:^a|b)c
(?:^|a)b
(?:^|b)a
(^|b)a
(a|^)b
(a$)
(a$)b
(?:a$)b
(?:a$|b)
(a$|b)
(a$|b)c
(?:a|$)
(?:a|$)b
(a|$)
(?:b|$)+
a(?:b|$)
a(b|$)
a(?:$|b)
^(?:a|b)
^(?:a|b)$
^(a|b)*$
^[ab]+$
^[^b]+$
^\w+$
^\w+:
^\s*a
a\s*$
^\n
\n^
\n^a
a\n^b
a$b
\n$
$a
^a\nb$
^a$|^b$
^(a$|b$)
^(?:a$|b)+
(?:^a$)+
(?:^a\n?)+
(?:a$)+
(?:a$)*b
(?:a\n)*b
(^a\n)*b
^\d+$
^\d{2}$
^a{2}$
^a{1,2}$
^a+?$
^a*?$
^a++$
^(a+)$
^(a*)$
^(a*)(b*)$
^a.*b$
^.*a.*$
^a?b?$
^(?:ab)*$
^(?:a|bb)*$
^(?:a|bb)*c$
\^a
a\^
a\$
\$a
\^
\$
\$$
^\^
[\^]a
[$]$
^[$]
[^$]$
^a\$$
^\^\$$
''')
ANCHORS = [p for p in ANCHORS if b'$a' not in p or b'\\$a' in p]
ANCHORS = [p for p in ANCHORS if p not in (b'a$b', b'\n^', b'\\n^', b'\\n^a', b'a\\n^b')]

HEUR = lines(r'''
\d+A
\d+?A
\d+\s+123
\d+1
\d+?1
\d*\d
\d*A\d*A
\w+_
\w+-
\w+\s
\w+\d
[a-z]+z
[a-y]+z
[a-z]+[A-Z]
[a-zA]+[A-Z]
[^a]+a
[^a]+b
[^a]*[ab]
a+b
a+ab
a+[ab]
a+b|c
a*b*c*
a*b*a
a*b*c*a
a+b?a
a+b?c
a+b*a
a+b*c
a+(?:b|a)
a+(?:b|c)
a+(?:b?|c)
a+(?:b*a|c)
a+(b|a)
a+(b)?a
a+(b)?c
(a+)a
(a+)b
(a+)(a)
(a+)(b)
(a+)b?a
(?:a+)a
(?:a+)b
(?:a+|b)a
(?:a+|b)c
(?:a+b)+
(?:a+b?)+
(?:a+b?)+a
(?:a+b*)+c
(?:a+)+b
(?:a*b)*
(?:a*b)*c
(?:a*b)*a
(?:a+?b)+
(?:a+?b?)+c
(?:a+?)+b
(a*?)b
(a*?)a
(a+?)a
(a+?)(b)?a
a*?b?a
a*?b?c
a*?b*a
a+?$
a+$
a*$
.+$
.*a$
.+\n
.*\n
\N+\n
\n+\N
\s+\n
\s+\t
\s+a
\S+ 
\S+a
\W+a
\W+ 
\W+_
\D+1
\D+a
(?:a|b)+c
(?:a|b)+a
(?:a|b)+?c
(?:ab|c)+a
(?:ab|c)+b
(?:ab|c)+d
(?:ab)+a
(?:ab)+b
(?:ab)+c
(?:ab)*?a
(?:ab)*?ab
(?:ab)*?c
a+(?:)b
\x61+a
\x61+b
\x{6162}+a
\x{6162}+b
\x{6162}*c
\141+a
\141*b
\xff+\xfe
\xff+[^a]
\W+\xff
\xff*\W
[^a]+\xff
a+.b
a+.*b
a+.*?b
a*.?b
a?.b
a?[ab]b
a?b
a?a
a??a
a??b
a?b?c?d
a?b?a?b
a{2,}a
a{2,}b
a{2,3}a
a{2,3}b
a{0,2}?a
a{0,2}?b
a{2}a
[ab]{2}a
[ab]{2,}a
[ab]{2,}c
[ab]{1,2}[bc]{1,2}c
(?:[ab]{1,2}c)+
(?:[ab]{1,2}c?)+a
a+^b
a+(?:^b|a)
(?:a$)+
(?:a$|b)+c
''')
HEUR = [p for p in HEUR if b'(?:)' not in p and b'a+^' not in p]

SYNTAX = lines(r'''
ab*
(ab)*
(?:ab)*
ab+c
a(b+)c
ab{2}
(?:ab){2}
ab{2}c
ab{1,2}c
a|bc
(a|b)c
(?:a|b)c
a|b*
(?:a|b)*
ab|cd
a(b|c)d
ab|cd*
ab|(cd)*
a*b|c+d
a\*
a\+
a\?
a\{2\}
\{2\}
a\{2
\[a\]
\(a\)
\(\(a
a\|b
\.\*
\\
\\\\
\\*
\\+a
a\\
\\|a
(\\)
[\\]
[a\]]
[\]]a
[\[a]
[a\-z]
[a-z\-]
\-a
\/
a/b
a-b
a,b
a:b
a=b
a!b
a#b
a%b
a&b
a@b
a~b
a`b
a'b
a"b
a;b
a<b>c
a_b
a b
a,{2}
a}b
}
a]b
]
{1}
,
a{2},b
a{1,2},{2}
2{2}
1{1}1
12{1,2}
(a)
((a))
(((a)))
((a)(b))
(?:(?:a)(?:b))
(?:(?:(?:a)))
(a(?:b(c)))
(?:a(b(?:c)))
(a)?
(a)+?
(a)*+
(a){2}
(a){1,2}?
(?:a)?
(?:a)+?
(?:a)*+
(?:a){2}
[a]?
[a]+?
[a]*+
[a]{2}
[a]{1,2}?
.?
.+?
.*+
.{2}
\d?
\d+?
\d*+
\d{2}
\d{2,}
\d{2,3}
\x61?
\x61+
\x61{2}
\141+
\o141{2}
\x{6162}?
\x{6162}{2}
\.?
\.+
\.{2}
\\?
\\{2}
\(?
\(+a
\)+
(\(+)
(\)+)
[(]+
[)]+
([)]+)
([(]a[)])
(\(a\))
(\[a\])
([[]a)
([\[]a[\]])
((a|b)|(c|d))
((a|b)(c|d))
(?:a|(b|(?:c|(d))))
a(b)c(d)e(f)g
(a)b(c)d(e)f
a|(b)|c|(d)
((((((((((a))))))))))
(?:(?:(?:(?:(?:(?:(?:(?:a))))))))
(a)(b)(c)(d)(e)(f)(g)(h)(i)(j)
abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789
a?b?c?d?e?f?g?h?
a*b*c*d*e*f*
[a-c][d-f][g-i][j-l]
(?:a[bc]|[de]f)+g?
(?:a\|b|c)+
(?:\(a|b\))+
(a\)b)
(a\(b)
(?:a\)|b)c
([a)]b)
([(a]b)
([|]a)
[a|b]
[a|b]+c
(a[|]b|c)
(a\|b|c)
[{]
[}]
[{}]+
[^{}]
[^{}]+a
[[]
[^[]
[[a]+
[a[]b
[{]{2}
[{,}]{1,2}a
a[{]|b
a|[[]|b
(a[{(]b)c
([[(]a|b)c
(?:[[{(]x)+
"[^"{]*"
[[{(].*[)}]?
[!-/:-@[-`{-~]+
[{-}]+
[Z-[]
\[{2}a
\[[[]\]
\{[^{]*\}
[(){}*+?.]+
[-+*/]
[+-]?\d
[\w.-]+@
[-a]b
[a-]b
[^-a]b
[^a-]b
[a-c-]+x
[\d-]+x
[,-]a
''')
SYNTAX = [p for p in SYNTAX if p != b'{1}']

NUMERIC = lines(r'''
\x0
\x9
\xa
\xF
\x00
\x01
\x0a
\x0A
\x1b
\x1F
\x20
\x2e
\x2a
\x5b
\x5c
\x61
\x4a
\x4A
\x7e
\x7F
\x80
\x8f
\xaa
\xAB
\xaB
\xBa
\xc3
\xC3\xA9
\xfe
\xff
\xFF
\xfF
\x611
\x61a
\x61g
\x6g
\x6G1
\x{61}
\x{6162}
\x{616263}
\x{61626364}
\x{6}
\x{F}
\x{f}
\x{ff}
\x{FF}
\x{00}
\x{0a}
\x{C3A9}
\x{c3a9}
\x{c3a9}+
\x{E282AC}
\x{f09f9880}
\x{00ff00ff}
\x{deadBEEF}
\x{6162}{2}
\x{6162}|c
(\x{6162})c
(\x{6162}|c)+
a\x{6162}b
\000
\001
\007
\010
\012
\033
\037
\040
\056
\101
\132
\141
\172
\176
\177
\200
\252
\300
\344
\376
\377
\1411
\141a
\1418
\o000
\o012
\o141
\o177
\o200
\o377
\o1411
\o{141}
\o{141142}
\o{141142143}
\o{000}
\o{377}
\o{303251}
\o{303251}+
\o{141142}{2}
(\o{141142})c
\o{141142}|c
\x61\141\o141\x{61}\o{141}
\x61+\x62
\x61*?\x61
\141+b
(\141)(\142)
\x41|\x42
\x30\x31
\x2a\x2b
\x28\x29
\x5b\x5d
\x24
\x5e
\x7c
a\x7cb
a\x2ab
\x61{2}
\x61{1,2}b
\x0d\x0a
\x09
\xe9
\xe9+a
\W\xe9
\xe9\W
[^a]\xe9
''')


def numeric_all():
    out = []
    for v in range(256):
        out += [b'\\x%02x' % v, b'\\x%02X' % v, b'\\%03o' % v, b'\\o%03o' % v, b'\\x{%02x}' % v, b'\\o{%03o}' % v,
                b'a\\x%02xb' % v, b'\\x{61%02x}' % v, b'\\o{%03o141}' % v]
    out += [b'\\x%x' % v for v in range(16)] + [b'\\x%X' % v for v in range(16)] + [b'\\x{%x}' % v for v in range(16)]
    return out


# Linear ones, for very long inputs.
HUGE = lines(r'''
a
ab
needle
a|b
(a)(b)
[ab]c
a+
[ab]+
(?:ab)+
(ab)+
(a|b)+
(?:ab)*
a{3,}
a++
(?:ab)*+
\w+
.+
[^b]+
a+?b
a{2}
(a+)(b+)
x*
^a
b$
\d{4}
''')

HUGE_QUANTS = [b'a+', b'[ab]+', b'(?:ab)+', b'(ab)*', b'(a|b)+', b'a{3,}', b'a++', b'(?:ab)*+', b'.*', b'a+?b', b'x*']

# Bounds of all sizes: those that fit a byte or not, of one digit or more, powers of two and their neighbours.
BOUNDS = [b'a' + q + m + t for q in (b'{%d}', b'{%d,}', b'{0,%d}', b'{2,%d}') for m in (b'', b'?', b'+') for t in (b'b', b'')
          for q in [q] if not (q == b'{%d}' and m)]
BOUND_SIZES = [9, 10, 11, 19, 20, 31, 32, 63, 64, 65, 99, 100, 101, 109, 127, 128, 129, 199, 254, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001,
               1023, 1024, 1025, 2000, 2047, 2048, 2049]


def bounds():
    out = [b % n for b in BOUNDS for n in BOUND_SIZES]
    for n, m in ((10, 10), (9, 10), (99, 100), (99, 101), (100, 1000), (255, 256), (256, 257), (127, 129), (500, 502), (999, 1001), (1000, 2000)):
        for t in (b'', b'b', b'a', b'?b', b'+b', b'?', b'+a'):
            out.append(b'a{%d,%d}' % (n, m) + t)
        out += [b'(?:ab){%d,%d}c' % (n // 2, m // 2), b'[ab]{%d,%d}c' % (n, m), b'(a){%d,%d}b' % (n, m), b'(?:a|b){%d,%d}+c' % (n, m),
                b'(a{%d,%d})(b)' % (n, m), rb'\d{%d,%d}x' % (n, m), b'ab{%d,%d}a' % (n, m)]
    return list(dict.fromkeys(out))


# those that need no more than one attempt on a long text of one byte
HUGE_BOUNDS = [b'a{0,32768}', b'a{0,65535}', b'a{0,65536}', b'a{0,65537}', b'a{2,65536}+', b'a{0,40000}?', b'(a){0,65536}', b'(?:ab){0,32768}',
               b'[ab]{1,65535}', b'a{300,}', b'a{1,70000}?', b'(?:a|b){3,40000}', b'a{0,65536}(b?)', b'(a{0,65536})', b'a{255}', b'a{1,256}']


# Where a group, an alternation or a quantified body has to be left differently than it first was:
# the known limitation of the engine (known_findings.txt).  Every short input is compared.
REENTRY = lines(r'''
(a|ab)c
a(bc|b)c
(?:ab?)b
(a*)ab
(?:a|ab)+c
''')

LITERAL_ALL = None


def literals():
    """Each byte on its own, escaped when it is an operator."""
    out = []
    for c in range(1, 256):
        b = bytes([c])
        if b in b'.*+?()[]{}|^$\\':
            out += [b'\\' + b, b'\\' + b + b'+a', b'a\\' + b]
        else:
            out += [b, b + b'+a']
    return out


RAW_SETS = [b'[\x80-\xff]', b'[^\x80-\xff]', b'[\xc3\xa9]', b'[^\xc3\xa9]', b'[a\xff]', b'[^a\xff]', b'[\x80-\x8f]+a',
            b'[\xe0-\xef][\x80-\xbf][\x80-\xbf]', b'\xc3\xa9+', b'(?:\xc3\xa9)+', b'(\xc3\xa9|\xc3\xa8)a', b'[\x01-\x1f]', b'[^\x01-\x1f]',
            b'[\x01-\x7f]+', b'\x01', b'\x7f', b'\x80', b'\xff', b'\xff+\xfe', b'\xff|\x80', b'[\xf0-\xff]*\xff', b'\x7f+\x80']


def stress():
    """Large counts, many groups and branches, long literals, deep nesting."""
    az = 'abcdefghijklmnopqrstuvwxyz'
    out = ['a{100}', 'a{99,101}', 'a{255}b', 'a{256}', 'a{257}', 'a{0,300}b', 'b{200,}', '(ab){50}', '(?:ab){40,60}c', '(a|b){64}c',
           '[ab]{128,}c', r'\d{40}-\d{40}', '(?:a{10}){10}', '(?:a{3}b){30}', '(?:(a{2}){2}){4}', 'a{12}b{13}c{14}', '(a{20})(a{20})',
           '(?:a?b){64}', 'a{64}?a', 'a{10,20}?b', 'a{10,20}+b', '(a){128}', '(?:a|bc){100}', 'x{17}', 'x{31,33}y', '.{65}z', '[^a]{80}a',
           'a*b{70}', r'\w{33}\W', '(a{9,11}|b{10}){3}', '(.{100})(.{100})', 'a{128}|a{64}', '(?:a{1,2}){70}', 'a{65}+b', 'a{130}?b',
           az * 2, az[:20] * 3 + 'q', '(%s)+' % az, '%s+' % az, '(?:%s|%s)' % (az, az.upper()), '[%s]+' % az.upper(), '[^%s]+' % az,
           'a' * 40 + 'b', 'a' * 32 + '+', 'x' + 'ab' * 20]
    out.append(''.join('(%s)' % c for c in az))
    out.append(''.join('(%s)' % c for c in az + az.upper()[:8]))
    out.append(''.join('(%s)?' % c for c in az[:14]))
    out.append(''.join('(%s*)' % c for c in az[:16]))
    out.append('|'.join('(%s)' % c for c in az[:20]))
    out.append('(?:' + '|'.join('(%s)' % c for c in az[:16]) + ')+')
    out.append('(' * 20 + 'a' + ')' * 20)
    out.append('(' * 12 + 'a' + ''.join(')%s' % c for c in az[1:13]))
    out.append('(?:' * 20 + 'ab' + ')' * 20)
    out.append('(?:' * 6 + 'a' + ')?b' * 6)
    out.append('(?:' * 8 + 'a' + ')+' * 8 + 'b')
    out.append('((a)' * 8 + ')?' * 8 + 'b')
    out.append('|'.join(az))
    out.append('|'.join(az[k:k + 3] for k in range(24)))
    out.append('|'.join('%s%d' % (c, k) for k, c in enumerate(az)))
    out.append('|'.join(['jan', 'feb', 'mar', 'apr', 'may', 'jun', 'jul', 'aug', 'sep', 'oct', 'nov', 'dec']))
    out.append('(alignas|alignof|and|asm|auto|bool|break|case|catch|char|class|const|continue|default|delete|do|double|else|enum)')
    out.append('(?:' + '|'.join('(%s)(%s)' % (c, d) for c, d in zip(az[:10], az[10:20])) + ')z')
    out.append('[' + ''.join(c for c in az[::2]) + az.upper()[::2] + '02468]+')
    out.append('[^' + ''.join(c for c in az[::2]) + az.upper()[::2] + '02468]+')
    out.append('a?' * 10 + 'a' * 10)
    out.append('a?' * 10 + 'b')
    out.append('a*a*b')
    out.append('(?:x+x+)+y')
    out.append(''.join('%s+' % c for c in az))
    out.append(''.join('%s?' % c for c in az))
    out.append(''.join('[%s%s]' % (c, c.upper()) for c in az))
    out.append(''.join('(?:%s|%s)' % (c, c.upper()) for c in az[:16]))
    out.append(r'\d\w\s' * 12)
    out.append('(a)' * 33)
    many = (az + az.upper() + '0123456789' + '!#%&,;')
    out.append(''.join('(%s)' % (many[k % len(many)]) for k in range(70)))
    out.append(''.join('(%s?)' % c for c in az[:8]) + 'z')
    pairs = [az[k % 26] + az[(k * 7 + k // 26) % 26] for k in range(66)]
    out.append('|'.join(pairs))
    out.append('x(?:' + '|'.join('(%s)' % p for p in pairs) + ')+y')
    out.append('(' * 24 + 'a' + ')b' * 24)
    out.append('(?:' + '|'.join('(%s)%s' % (c, c) for c in az[:24]) + ')*-')
    out.append('(a+)(b+)' * 8)
    out.append('.' * 70)
    out.append(r'\.' * 40)
    return [p.encode() for p in out]


def escaped_bytes():
    """Every byte but NUL as a literal."""
    return [b'\\' + bytes([c]) if bytes([c]) in b'.*+?()[]{}|^$\\' else bytes([c]) for c in range(1, 256)]


def sequences(parts, n=12):
    return [b''.join(parts[i:i + n]) for i in range(0, len(parts), n)]


def escaped_punctuation():
    """What needs no escape may have one."""
    out = []
    for c in b' !"#%&\',-/:;<=>@_`~':
        e = b'\\' + bytes([c])
        out += [e, b'a' + e + b'+b', b'(' + e + b'){2}', e + b'\\.' + e + b'|' + e + b'a']
    return out


GRID_ATOMS = [b'a', rb'\.', rb'\"', rb'\\', rb'\d', b'.', b'[ab]', b'[^a]', b'[)]', rb'[\]{]', b'(a)', b'(?:a)', b'(ab)', b'(?:ab)', b'(a|b)',
              b'(?:ab|c)', b'((a)b)', rb'\x61', rb'\x{6162}', rb'\141', rb'\o{141142}', rb'\xA', rb'\*', rb'\)', b'(a?)', b' ', b'\xe9', b'-']


def grid():
    """Every kind of atom under every quantifier."""
    out = []
    for k, (a, q, s) in enumerate(itertools.product(GRID_ATOMS, [b'*', b'+', b'?', b'{2}', b'{2,}', b'{1,2}', b'{0,3}'], [b'', b'?', b'+'])):
        if q == b'{2}' and s:
            continue
        out.append([b'%s', b'^%s', b'x%sy', b'%sa', b'(%s)b', b'%s$', b'c|%s|d', b'(?:%s)a'][k % 8] % (a + q + s))
    return out


def single_nibbles():
    """One digit is enough for a number, wherever it ends."""
    out = []
    for d in b'0123456789abcdefABCDEF':
        e = b'\\x%c' % d
        out += [e, b'a' + e + b'+', e + b'$', e + b'z', b'(' + e + b'){2}', e + b'|' + e + e, e + b'{2,3}?x', b'\\x{%c}*z' % d, e + b'\\x61', b'[^a]' + e]
    return out


def numeric_sequences():
    """Every value in every notation."""
    out = []
    for f in (b'\\x%02x', b'\\x%02X', b'\\%03o', b'\\o%03o', b'\\x{%02x}', b'\\o{%03o}'):
        out += sequences([f % v for v in range(256)])
    for v in range(0, 256, 12):
        out.append(b'\\x{' + b''.join(b'%02x' % w for w in range(v, min(v + 12, 256))) + b'}')
        out.append(b'\\o{' + b''.join(b'%03o' % w for w in range(v, min(v + 12, 256))) + b'}')
    return out


def families():
    """Regexes compared with each other, all with all."""
    rows = r'''
a	b	[ab]	[a-c]	[^a]	.	\w	\d
a+	a*	a?	b+	b*	a{2}	a{0,1}b	a+b
ab	ba	abc	a(b)	(a)b	(?:a)b	(ab)	(?:ab|cd)
a|b	b|c	c|d	a|bc	(a|b)c	(?:a|b)+	b?a	b?c
\d	\D	\w	\W	\s	\S	.	\n
\d+	[0-9]	[^0-9]	[5-9]	[0-4]	[a-z]	[A-Z]	[a-zA-Z]
\x61	\x{6162}	\141	a	b	\x62	\o{142}	\xe9
\xff	\x80	\x7f	[HI]	[^HI]	\N	[LO]	\x0a
a*b	a?b	(a)?b	(?:a|b)c	(a*)(b*)c	c	[bc]	[d-z]
(?:a?b?)c	a?b?c?	x	[xyz]	(?:x|)y?z	y+x	z{2,}	[^xyz]
http	ftp	https?	[hf]t	\w+://	mailto	(?:http|ftp)	(h|f)
if	else	while	[a-z]+	[0-9]+	\+	\-	[+*/]
\t	\r	\f	\a	\e	\s	\S	[\t\r]
abcd	bcde	cdef	defg	efgh	[a-d]x	[e-h]x	[^a-h]
(a(b(c)))	(b(a(c)))	((a)|(b))	((c)|(d))	(?:(?:a))	(?:(?:b))	(((c)))	d
a+?	b+?	a*?b	a??c	a++	b*+c	a?+d	[ab]+?
\.	\*	\+	\?	\(	\)	\[	\]
\{	\}	\|	\^	\$	\\	/	-
[\d_]	[\w]	[^\w]	[\s\d]	[^\d]	[^\s]	[a\-z]	[\]a]
'''
    some = [w.replace(b'%s', m) + b'a' for w in AROUND for m in (b'b?', b'(b)*')]
    for k in range(0, len(some), 6):
        yield some[k:k + 6] + [b'a', b'b']
    for line in rows.strip('\n').split('\n'):
        line = line.replace('HI', '\x80-\xff').replace('LO', '\x01-\x1f')
        yield [p.encode('latin1') for p in line.split('\t') if '|)' not in p]
