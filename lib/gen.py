"""Random patterns of the e-regex dialect (README.md), as bytes."""
import random

QUANTS = [b'*', b'+', b'?', b'{2}', b'{3}', b'{1,2}', b'{0,2}', b'{2,}', b'{1}', b'{0}', b'{1,3}',
          b'{0,1}', b'{1,}', b'{0,}', b'{2,4}', b'{3,5}', b'{0,3}']
BIGQ = [b'{10}', b'{10,}', b'{9,11}', b'{10,12}', b'{12}', b'{5,10}', b'{0,10}']
EXACT = (b'{2}', b'{3}', b'{1}', b'{0}', b'{10}', b'{12}')
ESC = [rb'\d', rb'\D', rb'\w', rb'\W', rb'\s', rb'\S', rb'\n', rb'\N', rb'\t', rb'\r', rb'\f', rb'\a', rb'\e']
META = b'.*+?()[]{}|^$\\-/'


class Gen:
    def __init__(self, seed, quant=.45, cap=.2, grp=.14, cls=.12, esc=.04, lit=.0, alts=(1, 1, 1, 2, 3),
                 seqs=(1, 1, 2, 2, 3, 4), depth=3, anchors=.05, num=.0, bigq=.02, suffix=None, raw=.0,
                 letters=None, maxlen=40):
        self.r = random.Random(seed)
        self.__dict__.update(dict(quant=quant, cap=cap, grp=grp, cls=cls, esc=esc, lit=lit, alts=alts,
                                  seqs=seqs, depth=depth, anchors=anchors, num=num, bigq=bigq, raw=raw,
                                  fixed_letters=letters, maxlen=maxlen))
        self.suffix = suffix or (b'', b'', b'?', b'+')

    # -- pieces
    def letter(self):
        return self.r.choice(self.letters)

    def plain_letter(self):
        c = self.letter()
        return self.plain_letter() if c == b'-' else c

    def bracket(self):
        r = self.r
        n = r.choice([1, 1, 2, 2, 3])
        body = b''
        for k in range(n):
            x = r.random()
            if x < .35:
                a, b = sorted([self.plain_letter(), self.plain_letter()])
                body += a + b'-' + b
            elif x < .45:
                lo, hi = r.choice([(b'a', b'z'), (b'0', b'9'), (b'A', b'Z'), (b'b', b'd'), (b'1', b'5'),
                                   (b'a', b'c'), (b' ', b'/'), (b'x', b'z')])
                body += lo + b'-' + hi
            elif x < .58:
                body += r.choice(ESC)
            elif x < .64:
                body += r.choice([b'.', b'*', b'+', b'?', b'$', b'|', b'(', b')', b'[', b'{', b'}', b',',
                                  b'\\]', b'\\-', b'\\\\', b'\\^'])
            elif x < .64 + self.raw:
                body += bytes([r.randrange(128, 256)])
            else:
                body += self.plain_letter()
        if r.random() < .08:
            body = body + b'-' if r.random() < .5 else b'-' + body
        return (b'[^' if r.random() < .35 else b'[') + body + b']'

    def numeric(self):
        r = self.r
        v = r.choice([ord(self.letter()), r.randrange(256)])
        x = r.randrange(6)
        if x == 0:
            return b'\\x%02x' % v
        if x == 1:
            return b'\\x%02X' % v
        if x == 2:
            return b'\\%03o' % v
        if x == 3:
            return b'\\o%03o' % v
        n = r.choice([1, 2, 2, 3])
        vs = [r.choice([ord(self.letter()), r.randrange(256)]) for _ in range(n)]
        if x == 4:
            return b'\\x{' + b''.join(b'%02x' % v for v in vs) + b'}'
        return b'\\o{' + b''.join(b'%03o' % v for v in vs) + b'}'

    def atom(self, d):
        r = self.r
        x = r.random()
        if d > 0:
            if x < self.cap:
                return b'(' + self.alt(d - 1) + b')'
            x -= self.cap
            if x < self.grp:
                return b'(?:' + self.alt(d - 1) + b')'
            x -= self.grp
        if x < self.cls:
            return self.bracket()
        x -= self.cls
        if x < self.esc:
            return r.choice(ESC)
        x -= self.esc
        if x < .05:
            return b'.'
        x -= .05
        if x < self.num:
            return self.numeric()
        x -= self.num
        if x < self.raw:
            c = r.choice([bytes([r.randrange(128, 256)]), b'\\' + bytes([r.choice(META)])])
            return c
        return self.letter()

    def quantifier(self):
        r = self.r
        if r.random() >= self.quant:
            return b''
        q = r.choice(BIGQ if r.random() < self.bigq else QUANTS)
        return q + (b'' if q in EXACT and r.random() < .8 else r.choice(self.suffix))

    def item(self, d):
        r = self.r
        if d < self.depth and r.random() < self.lit:
            return b''.join(self.letter() for _ in range(r.randint(2, 5)))
        return self.atom(d) + self.quantifier()

    def seq(self, d):
        return b''.join(self.item(d) for _ in range(self.r.choice(self.seqs)))

    def alt(self, d):
        r = self.r
        out = []
        for _ in range(r.choice(self.alts)):
            s = self.seq(d)
            if r.random() < self.anchors / 2:
                s = b'^' + s
            if r.random() < self.anchors / 2:
                s = s + b'$'
            out.append(s)
        return b'|'.join(out)

    def pattern(self):
        r = self.r
        while True:
            self.letters = [bytes([c]) for c in (self.fixed_letters or r.choice(
                [b'abc', b'abc', b'ab', b'abcd', b'a1 ', b'xy_', b'aB9-', b'ab\n', b'0123', b'abcdefgh']))]
            p = self.alt(self.depth)
            if 0 < len(p) <= self.maxlen:
                return p

    def many(self, n):
        seen, out = set(), []
        while len(out) < n:
            p = self.pattern()
            if p not in seen and not bad(p):
                seen.add(p)
                out.append(p)
        return out


def bad(p):
    """Outside of the documented dialect: an unescaped metacharacter where a literal was meant, ..."""
    return b'\\x{}' in p or b'[]' in p or b'[^]' in p


PROFILES = {
    'mixed': {},
    'literal': dict(lit=.35, quant=.35),
    'alts': dict(alts=(2, 2, 3, 3, 4, 5), quant=.3, seqs=(1, 1, 2, 3)),
    'quants': dict(quant=.8, depth=2, alts=(1, 1, 1, 2), bigq=.06),
    'flatq': dict(quant=.8, depth=1, cap=.1, grp=.1, alts=(1, 1, 1, 1, 2), cls=.3),
    'groups': dict(cap=.4, grp=.1, quant=.35, depth=4, maxlen=48),
    'classes': dict(cls=.5, esc=.15, quant=.4, depth=1, raw=.05),
    'anchors': dict(anchors=.6, letters=b'ab\n', depth=2, quant=.35),
    'numeric': dict(num=.45, depth=1, quant=.3, raw=.1),
    'heur': dict(quant=.75, cls=.4, esc=.15, depth=1, cap=.15, grp=.15, suffix=(b'', b'', b'?')),
}


def profile(name, seed, n, **over):
    return Gen('%s/%s' % (name, seed), **{**PROFILES[name], **over}).many(n)


if __name__ == '__main__':
    import sys
    for p in profile(sys.argv[1], sys.argv[2], int(sys.argv[3])):
        print(p)
