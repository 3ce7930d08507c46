"""Opaque texts and numbers: strings over an alphabet of ordinary characters and of tokens that stand for an unknown label or number.

A token is a private-use character, so that concatenation, comparison and splitting of constants work on it; what would look inside of an unknown text (case conversions,
stripping next to it, slicing through it, formatting a number with a precision) yields the token LOST instead."""
import re

from .values import *
from .values import AV

LOST = '\uf8ff'
BASE = 0xE000
TOK = re.compile('[\ue000-\uf8ff]')
FORBIDDEN = {'XML': '<>"\n\t\r', 'JSON': '"\n\t\r'}     # what quoted labels do not contain


class Tokens:
    def __init__(self, spaces=True):
        self.spaces = spaces    # may labels begin or end with blanks
        self.kinds = {}         # character -> ('label', name) | ('number', atom)
        self.chars = {}
        self.lost = {}          # what was done to a label or number whose text or value is lost

    def char(self, kind, what):
        k = (kind, what)
        if k not in self.chars:
            # an order that is neither that of the creation nor its reverse
            n = len(self.chars)
            c = chr(BASE + (n * 1999 + 4001) % 5000)
            assert c not in self.kinds
            self.chars[k] = c
            self.kinds[c] = k
        return self.chars[k]

    def label(self, name):
        return self.char('label', name)

    def text_of(self, atom):
        """the text of a number"""
        return self.char('number', atom)

    def has(self, s):
        return isinstance(s, str) and TOK.search(s) is not None

    def number(self, s):
        t = s.strip()
        if len(t) == 1:
            k = self.kinds.get(t)
            if k is not None and k[0] == 'number':
                return k[1]
            if t == LOST:
                return S('float', 'lost')
        return None

    def lose(self, why):
        self.lost.setdefault(why, 0)
        self.lost[why] += 1
        return LOST

    def method(self, s, name, args):
        """the result of a string method on a constant with tokens; None: as for any other text; U: unknown"""
        islabel = lambda c: self.kinds.get(c, ('label',))[0] == 'label'
        if name in ('lower', 'upper', 'title', 'capitalize', 'swapcase', 'casefold', 'zfill'):
            return C(TOK.sub(lambda m: self.lose(name) if islabel(m[0]) else m[0], getattr(s, name)() if name != 'zfill' else s))
        if name in ('strip', 'lstrip', 'rstrip'):
            r = getattr(s, name)(*args)
            if not self.spaces and (not args or not args[0] or args[0].isspace()):
                return C(r)
            if r and name != 'rstrip' and TOK.match(r[0]) and islabel(r[0]):
                r = self.lose(name) + r[1:]
            if r and name != 'lstrip' and TOK.match(r[-1]) and islabel(r[-1]):
                r = r[:-1] + self.lose(name)
            return C(r)
        if name == 'replace':
            if args and (not args[0] or TOK.search(args[0]) or not any(islabel(c) for c in TOK.findall(s))):
                return None
            hit = [n for n, c in enumerate(s) if TOK.match(c) and islabel(c) and self.within(s, n, args[0])]
            # a label may contain any text that its quoting lets through
            if hit:
                s = ''.join(self.lose('replace') if n in hit else c for n, c in enumerate(s))
            return C(s.replace(*args))
        if name in ('split', 'rsplit', 'partition', 'rpartition', 'splitlines'):
            if self.spaces and any(islabel(c) for c in TOK.findall(s)):
                return U
            return None
        if name in ('startswith', 'endswith'):
            for p in args[0] if isinstance(args[0], tuple) else args[:1]:
                if self.has(p):
                    return None
                n = len(p)
                part = s[:n] if name == 'startswith' else s[len(s) - n:] if n else ''
                if self.has(part) and not self.differs(part, p, name == 'startswith'):
                    return U
            return None
        if name in ('join', 'format', 'format_map', 'count', 'find', 'index', 'rfind', 'rindex'):
            return None if name == 'join' else U
        if name in ('isdigit', 'isnumeric', 'isalpha', 'isidentifier', 'isspace', 'isupper', 'islower', 'isdecimal', 'isalnum', 'isascii', 'isprintable', 'istitle'):
            return U
        if name in ('encode', 'ljust', 'rjust', 'center', 'expandtabs', 'translate', 'removeprefix', 'removesuffix'):
            if name in ('removeprefix', 'removesuffix') and args:
                t = self.method(s, 'startswith' if name == 'removeprefix' else 'endswith', args)
                return None if t is None else U
            return U
        return U

    def quoting(self, s, n):
        """the scheme the label at s[n] is quoted with"""
        k = self.kinds.get(s[n - 1]) if n else None
        return k[1] if k is not None and k[0] == 'quoting' else None

    def within(self, s, n, pattern):
        """may the pattern occur in a text that contains a part of the label at s[n]?"""
        q = self.quoting(s, n)
        bad = set(FORBIDDEN.get(q[0] if q else None, ''))
        if not self.spaces:
            bad |= set(' \t\r\n')
        before, after = s[:n - (q is not None)], s[n + 1:]
        for i in range(len(pattern)):
            for j in range(i + 1, len(pattern) + 1):
                if not bad & set(pattern[i:j]) and before.endswith(pattern[:i]) and after.startswith(pattern[j:]):
                    return True
        return False

    def differs(self, part, p, front):
        """do the ordinary characters before (behind) the first token already differ?"""
        a, b = (part, p) if front else (part[::-1], p[::-1])
        for x, y in zip(a, b):
            if TOK.match(x):
                return False
            if x != y:
                return True
        return False

    def item(self, s, k):
        """s[k] for an int or a slice; a cut through a token loses it"""
        toks = [n for n, c in enumerate(s) if TOK.match(c)]
        if isinstance(k, slice):
            if k.step not in (None, 1):
                return U
            a, b = k.start, k.stop
            r = s[k]
            if a in (None, 0) and b is None:
                return C(r)
            # positions are only known before the first and behind the last token
            if a is not None and (a > toks[0] if a >= 0 else len(s) + a <= toks[-1]):
                return C(TOK.sub(lambda m: self.lose('slice'), r) or self.lose('slice'))
            if b is not None and (b > toks[0] if b >= 0 else len(s) + b <= toks[-1]):
                return C(TOK.sub(lambda m: self.lose('slice'), r) or self.lose('slice'))
            return C(r)
        if isinstance(k, int):
            if 0 <= k < toks[0] or k < 0 and len(s) + k > toks[-1]:
                return C(s[k])
            return C(self.lose('character'))
        return U

    def length(self, s):
        import math
        return ('iv', 'int', len(s) - 0.5, math.inf)
