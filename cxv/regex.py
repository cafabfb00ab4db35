"""constant ECMAScript regular expressions (std::regex, full match) as z3 regular expressions"""
import z3

ONE = z3.Range(chr(1), chr(255))
CLASSES = {
    'digit': [('0', '9')], 'alpha': [('a', 'z'), ('A', 'Z')], 'alnum': [('a', 'z'), ('A', 'Z'), ('0', '9')],
    'lower': [('a', 'z')], 'upper': [('A', 'Z')], 'space': [('\t', '\r'), (' ', ' ')], 'xdigit': [('0', '9'), ('a', 'f'), ('A', 'F')],
    'd': [('0', '9')], 'w': [('a', 'z'), ('A', 'Z'), ('0', '9'), ('_', '_')], 's': [('\t', '\r'), (' ', ' ')],
    'punct': [('!', '/'), (':', '@'), ('[', '`'), ('{', '~')],
}
ESC = {'n': '\n', 't': '\t', 'r': '\r', 'f': '\f', 'v': '\v'}


class Bad(Exception):
    pass


def lit(c):
    return z3.Re(z3.StringVal('\\u{%x}' % ord(c)))


def union(l):
    return l[0] if len(l) == 1 else z3.Union(*l)


def rngs(l):
    return union([z3.Range(z3.StringVal('\\u{%x}' % ord(a)), z3.StringVal('\\u{%x}' % ord(b))) for a, b in l])


class Parser:
    def __init__(self, p):
        self.p, self.i = p, 0

    def peek(self):
        return self.p[self.i] if self.i < len(self.p) else None

    def take(self):
        c = self.p[self.i]
        self.i += 1
        return c

    def alt(self):
        l = [self.seq()]
        while self.peek() == '|':
            self.take()
            l.append(self.seq())
        return union(l)

    def seq(self):
        l = []
        while self.peek() is not None and self.peek() not in '|)':
            a = self.atom()
            if a is not None:
                l.append(a)
        if not l:
            return z3.Re('')
        return l[0] if len(l) == 1 else z3.Concat(*l)

    def atom(self):
        c = self.take()
        if c == '^':
            if self.i != 1:
                raise Bad('anchor inside')
            return None
        if c == '$':
            if self.i != len(self.p):
                raise Bad('anchor inside')
            return None
        if c == '(':
            if self.peek() == '?':
                self.take()
                if self.take() != ':':
                    raise Bad('group')
            r = self.alt()
            if self.peek() != ')':
                raise Bad('group')
            self.take()
        elif c == '[':
            r = self.cls()
        elif c == '.':
            r = z3.Intersect(ONE, z3.Complement(z3.Union(lit('\n'), lit('\r'))))
        elif c == '\\':
            e = self.take()
            if e in CLASSES:
                r = rngs(CLASSES[e])
            elif e.lower() in CLASSES and e.isupper():
                r = z3.Intersect(ONE, z3.Complement(rngs(CLASSES[e.lower()])))
            elif e in ESC:
                r = lit(ESC[e])
            elif e.isalnum():
                raise Bad('escape')
            else:
                r = lit(e)
        elif c in '*+?{}':
            raise Bad('quantifier')
        else:
            r = lit(c)
        while True:
            q = self.peek()
            if q == '*':
                r = z3.Star(r)
            elif q == '+':
                r = z3.Plus(r)
            elif q == '?':
                r = z3.Option(r)
            elif q == '{':
                j = self.p.index('}', self.i)
                b = self.p[self.i + 1:j].split(',')
                self.i = j
                lo = int(b[0])
                if len(b) == 1:
                    r = z3.Loop(r, lo, lo)
                elif b[1] == '':
                    r = z3.Concat(z3.Loop(r, lo, lo), z3.Star(r))
                else:
                    r = z3.Loop(r, lo, int(b[1]))
            else:
                return r
            self.take()
            if self.peek() == '?':
                self.take()     # lazy: the same language

    def cls(self):
        neg = False
        if self.peek() == '^':
            self.take()
            neg = True
        l = []
        while True:
            c = self.take()
            if c == ']':
                break
            if c == '[' and self.peek() == ':':
                j = self.p.index(':]', self.i)
                l += CLASSES[self.p[self.i + 1:j]]
                self.i = j + 2
                continue
            if c == '\\':
                e = self.take()
                if e in CLASSES:
                    l += CLASSES[e]
                    continue
                c = ESC.get(e, e)
            if self.peek() == '-' and self.i + 1 < len(self.p) and self.p[self.i + 1] != ']':
                self.take()
                d = self.take()
                if d == '\\':
                    d = self.take()
                l.append((c, d))
            else:
                l.append((c, c))
        if not l:
            raise Bad('class')
        r = rngs(l)
        return z3.Intersect(ONE, z3.Complement(r)) if neg else r


_cache = {}


def to_re(p):
    """z3 regular expression of the full matches of p, None when outside the subset"""
    if p not in _cache:
        try:
            P = Parser(p)
            r = P.alt()
            _cache[p] = r if P.i == len(p) else None
        except (Bad, KeyError, ValueError, IndexError):
            _cache[p] = None
    return _cache[p]
