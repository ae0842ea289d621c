# -*- coding: utf-8 -*-
"""Choice-sequence generators.

Every random decision of a case is one bounded non-negative integer, drawn from
`G`.  A case is a pure function of that sequence, so a sequence can be replayed,
mutated and shrunk (0 is always the simplest choice).  `span()` marks regions
that belong together, which is what the shrinker deletes first.
"""
import random


class Overrun(Exception):
    """the case asked for more choices than allowed"""


class G(object):
    def __init__(self, seed=None, choices=None, limit=20000):
        self.rng = random.Random(seed) if choices is None else None
        self.choices = choices
        self.rec = []
        self.spans = []
        self.limit = limit

    # -- primitive draws -------------------------------------------------
    def draw(self, n, pick=None):
        """an integer in [0, n)"""
        i = len(self.rec)
        if i >= self.limit:
            raise Overrun()
        if self.choices is not None:
            v = self.choices[i] if i < len(self.choices) else 0
            if v >= n:
                v = n - 1
        elif pick is not None:
            v = pick(self.rng)
        else:
            v = self.rng.randrange(n)
        self.rec.append(v)
        return v

    def span(self):
        return _Span(self)

    def bool(self, p=0.5):
        """True with probability p; False is the simple choice"""
        if p <= 0:
            return False
        if p >= 1:
            return True
        return self.draw(2, lambda r: 1 if r.random() < p else 0) == 1

    def int(self, lo, hi, edges=True):
        """an integer in [lo, hi], simplest is the one nearest to 0"""
        t = 0 if lo <= 0 <= hi else (lo if lo > 0 else hi)
        below, above = t - lo, hi - t
        n = hi - lo + 1

        def enc(v):
            d = v - t
            m = min(below, above)
            if d == 0:
                return 0
            if abs(d) <= m:
                return 2 * abs(d) - (1 if d > 0 else 0)
            return abs(d) + m

        def dec(c):
            m = min(below, above)
            if c <= 2 * m:
                return t + ((c + 1) // 2 if c % 2 else -(c // 2))
            d = c - m
            return t + d if above > below else t - d

        def pick(r):
            if edges:
                x = r.random()
                if x < 0.12:
                    return enc(r.choice([lo, hi]))
                if x < 0.2:
                    return enc(min(hi, max(lo, r.choice([lo + 1, hi - 1, t, t + 1, t - 1]))))
                if x < 0.55 and n > 64:
                    b = r.randrange(1, n.bit_length() + 1)
                    return enc(min(hi, max(lo, t + r.choice([-1, 1]) * r.randrange(1 << b))))
            return enc(r.randint(lo, hi))

        return dec(self.draw(n, pick))

    def choice(self, seq):
        seq = list(seq)
        return seq[self.draw(len(seq))]

    def weighted(self, pairs):
        """pairs of (weight, value); the first is the simplest"""
        pairs = [p for p in pairs if p[0] > 0]
        tot = float(sum(w for w, _ in pairs))

        def pick(r):
            x = r.random() * tot
            for i, (w, _) in enumerate(pairs):
                x -= w
                if x < 0:
                    return i
            return len(pairs) - 1
        return pairs[self.draw(len(pairs), pick)][1]

    def list(self, f, lo=0, hi=5, avg=None):
        """a list of f() results"""
        avg = avg if avg is not None else (lo + min(hi, lo + 4)) / 2.0
        p = 1.0 - 1.0 / (1.0 + max(avg - lo, 0.01))
        out = []
        while len(out) < hi:
            if len(out) >= lo and not self.bool(p):
                break
            with self.span():
                out.append(f())
        return out

    def subset(self, seq, p=0.5):
        return [x for x in seq if self.bool(p)]

    def sample(self, seq, lo=0, hi=None):
        """distinct elements in random order"""
        pool = list(seq)
        hi = len(pool) if hi is None else min(hi, len(pool))
        n = self.int(lo, hi, edges=False)
        out = []
        for _ in range(n):
            out.append(pool.pop(self.draw(len(pool))))
        return out

    def shuffle(self, seq):
        pool, out = list(seq), []
        while pool:
            out.append(pool.pop(self.draw(len(pool))))
        return out

    # -- text ------------------------------------------------------------
    def text(self, alphabet, lo=0, hi=12, avg=None):
        return u''.join(self.list(lambda: self.choice(alphabet), lo, hi, avg))

    def float(self, lo=-1e6, hi=1e6):
        k = self.weighted([(3, 'int'), (3, 'dec'), (2, 'frac'), (1, 'exp')])
        if k == 'int':
            v = float(self.int(int(lo), int(hi)))
        elif k == 'dec':
            v = self.int(int(lo * 10), int(hi * 10)) / 10.0
        elif k == 'frac':
            v = self.int(int(lo), int(hi)) + self.int(0, 1 << 20) / float(1 << 20)
        else:
            v = self.int(-9999, 9999) * 10.0 ** self.int(-12, 12)
        return min(max(v, lo), hi)


class _Span(object):
    def __init__(self, g):
        self.g = g

    def __enter__(self):
        self.start = len(self.g.rec)

    def __exit__(self, *a):
        self.g.spans.append((self.start, len(self.g.rec)))


LETTERS = u'abcdefghijklmnopqrstuvwxyz'
WORD = LETTERS + LETTERS.upper() + u'0123456789'
# characters that mean something to URLs, pointers, forms, formats, headers
TRICKY = u'&=?/#%+;:,| "\'{}\\~<>[]()@!$*.-_^`'
UNI = u'\u00e9\u00df\u4e2d\u6587\u20ac\U0001f600\u00a0'
CTRL = u'\t\n\r\x00\x0b\x7f'
ANY = u'a' + WORD[1:12] + TRICKY + UNI
ASCII = u'a' + WORD[1:12] + TRICKY
