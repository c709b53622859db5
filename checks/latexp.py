"""Reader for the LaTeX the generators emit: text -> list of products (fully distributed)."""
import re
from fractions import Fraction
from math import factorial

from symx import tn


class Bad(tn.ProgramError):
    """the emitted text is not a well-formed sum of products"""


class Term:
    """coeff * I^i * f^f * fbar^fbar * objs;  objs: ((name, upper labels, lower labels, is derivative), ...)"""
    __slots__ = ('coeff', 'i', 'f', 'fbar', 'objs', 'marks')

    def __init__(self, coeff=Fraction(1), i=0, f=0, fbar=0, objs=(), marks=()):
        self.coeff, self.i, self.f, self.fbar, self.objs, self.marks = coeff, i, f, fbar, tuple(objs), tuple(marks)

    def __mul__(self, o):
        return Term(self.coeff * o.coeff, self.i + o.i, self.f + o.f, self.fbar + o.fbar, self.objs + o.objs,
                    self.marks + o.marks)

    def __repr__(self):
        return (f'{self.coeff} ' + ('i ' * self.i) + (f'f^{self.f} ' if self.f else '')
                + (f'fbar^{self.fbar} ' if self.fbar else '')
                + ' '.join(('d/dtau ' if d else '') + f'{n}^{{{u}}}_{{{l}}}' for n, u, l, d in self.objs)
                + ''.join(f' [{m}]' for m in self.marks))


def clean(text):
    text = re.sub(r'(?<!\\)%[^\n]*', '', text)
    text = text.replace('\\\\', ' ').replace('&', ' ')
    for w in (r'\left', r'\right', r'\,', r'\sum', r'\quad', r'\qquad', r'\Big', r'\bigg', r'\big'):
        text = re.sub(re.escape(w) + r'(?![a-zA-Z])', ' ', text)
    return text


def braced(s, i):
    """s[i] == '{': (content, index after the matching brace)"""
    d = 0
    for j in range(i, len(s)):
        if s[j] == '{':
            d += 1
        elif s[j] == '}':
            d -= 1
            if d == 0:
                return s[i + 1:j], j + 1
    raise Bad('unbalanced braces')


def labels(s):
    """mode labels of a script: colour commands unwrapped, surface label and 0 dropped"""
    s = s.strip()
    out, i = '', 0
    while i < len(s):
        m = re.compile(r'\\(blue|red|magenta|green|cyan|orange)\{').match(s, i)
        if m:
            c, i = braced(s, m.end() - 1)
            out += labels(c)
            continue
        m = re.compile(r'\\(gamma|tau|delta)(?![a-zA-Z])').match(s, i)
        if m:
            i = m.end()
            continue
        if s[i] in ', 0{}':
            i += 1
            continue
        if s[i].isalpha():
            out += s[i]
            i += 1
            continue
        raise Bad(f'unexpected label text {s!r}')
    return out


def number(s):
    """product of numbers and factorials:  2!2!, (2)(2), 3*2, (1+2)..."""
    s = s.replace(' ', '')
    r, i = Fraction(1), 0
    while i < len(s):
        m = re.compile(r'(\d+)(!?)').match(s, i)
        if m:
            r *= factorial(int(m.group(1))) if m.group(2) else int(m.group(1))
            i = m.end()
        elif s[i] in '()*':
            i += 1
        elif s.startswith(r'\cdot', i):
            i += 5
        else:
            raise Bad(f'unexpected number {s!r}')
    if not s:
        raise Bad('empty numerator or denominator')
    return r


class Reader:
    def __init__(self, s):
        self.s, self.i = clean(s), 0

    def ws(self):
        while self.i < len(self.s) and self.s[self.i].isspace():
            self.i += 1

    def peek(self):
        self.ws()
        return self.s[self.i] if self.i < len(self.s) else ''

    def re(self, pat):
        self.ws()
        m = re.compile(pat).match(self.s, self.i)
        if m:
            self.i = m.end()
        return m

    def sum(self, stop):
        """terms up to `stop` ('' = end of text)"""
        out, sign, pending = [], 1, False
        while True:
            c = self.peek()
            if c == stop:
                if pending:
                    raise Bad('sum ends with an operator')
                return out
            if c == '':
                raise Bad('unbalanced parentheses')
            if c == ')':
                raise Bad('unbalanced parentheses')
            if c in '+-':
                if pending and out:
                    raise Bad('two operators in a row')
                sign = 1 if c == '+' else -1
                pending = True
                self.i += 1
                continue
            if out and not pending:
                raise Bad('two terms without an operator')
            t = self.product(stop)
            out += [Term(Fraction(sign)) * x for x in t]
            sign, pending = 1, False

    def product(self, stop):
        cur = [Term()]
        n = 0
        while True:
            c = self.peek()
            if c == '' or c in '+-)':
                if n == 0:
                    raise Bad('empty product')
                return cur
            fs = self.factor()
            cur = [a * b for a in cur for b in fs]
            n += 1

    def scripts(self):
        up = lo = ''
        seen = set()
        while True:
            m = self.re(r'[\^_]')
            if not m:
                return up, lo
            k = m.group(0)
            if k in seen:
                raise Bad('double script')
            seen.add(k)
            if self.peek() == '{':
                c, self.i = braced(self.s, self.i)
            else:
                c = self.s[self.i]
                self.i += 1
            if k == '^':
                up = labels(c)
            else:
                lo = labels(c)

    def power(self):
        m = self.re(r'\^\{(\d+)\}|\^(\d)')
        return int(m.group(1) or m.group(2)) if m else 1

    def factor(self):
        m = self.re(r'\(\s*1\s*-\s*\\delta_\{([^{}]*)\}\s*\)')
        if m:
            return [Term(marks=('1-delta ' + m.group(1).strip(),))]
        if self.re(r'\('):
            t = self.sum(')')
            self.i += 1
            return t
        m = self.re(r'\\frac(?=\{)')
        if m:
            a, self.i = braced(self.s, self.i)
            b, self.i = braced(self.s, self.i)
            return [Term(number(a) / number(b))]
        if self.re(r'\\bar\{f\}'):
            return [Term(fbar=self.power())]
        if self.re(r'f(?![a-zA-Z])'):
            return [Term(f=self.power())]
        if self.re(r'\\mathds\{?1\}?'):
            return [Term()]
        m = self.re(r'\\textit(?=\{)')
        if m:
            _, self.i = braced(self.s, self.i)
            return []
        if self.re(r'\\varepsilon(?![a-zA-Z])'):
            return [Term(objs=(('eps', '', '', False),))]
        m = self.re(r'\\dv(?=\{)')
        if m:
            a, self.i = braced(self.s, self.i)
            b, self.i = braced(self.s, self.i)
            if b.strip() != r'\tau':
                raise Bad('derivative with respect to something else than tau')
            t = parse(a)
            if len(t) != 1 or len(t[0].objs) != 1 or t[0].coeff != 1:
                raise Bad('derivative of something else than one amplitude')
            return [Term(objs=(t[0].objs[0][:3] + (True,),))]
        m = self.re(r'\\hat\{\\(b[a-z]|[A-Z])\}|\\(b[a-z])(?![a-zA-Z])|\\hat\{([A-Z])\}')
        if m:
            name = m.group(1) or m.group(2) or m.group(3)
            u, l = self.scripts()
            return [Term(objs=((name, u, l, False),))]
        if self.re(r'i(?![a-zA-Z])'):
            return [Term(i=1)]
        m = self.re(r'(\d+)(!?)')
        if m:
            return [Term(Fraction(factorial(int(m.group(1))) if m.group(2) else int(m.group(1))))]
        raise Bad(f'unexpected text {self.s[self.i:self.i + 40]!r}')


def parse(text):
    r = Reader(text)
    return r.sum('')


# -------------------------------------------------------------- contraction structure
def contraction(term):
    """(pairs, externals) of the labels of a product.
    pairs: list of (object index holding it as upper label, object index holding it as lower label)
    externals: dict object index -> (upper external labels, lower external labels)
    A label may occur once (external) or twice, on two different objects, once as an upper and once as a lower label."""
    where = {}
    for k, (n, u, l, d) in enumerate(term.objs):
        for x in u:
            where.setdefault(x, []).append((k, 'u'))
        for x in l:
            where.setdefault(x, []).append((k, 'l'))
    pairs, ext = [], {k: ['', ''] for k in range(len(term.objs))}
    for x, ps in where.items():
        if len(ps) == 1:
            k, p = ps[0]
            ext[k][p == 'l'] += x
        elif len(ps) == 2 and ps[0][0] != ps[1][0] and {ps[0][1], ps[1][1]} == {'u', 'l'}:
            up = [k for k, p in ps if p == 'u'][0]
            lo = [k for k, p in ps if p == 'l'][0]
            pairs.append((up, lo))
        else:
            raise Bad(f'label {x} is used inconsistently in {term!r}')
    return pairs, ext


def blocks(text):
    """[(m, n, body)] for every projection: the Omega header and the text that follows it"""
    parts = re.split(r'\\hat\{\\Omega\}\s*=', text)
    out = []
    for p in parts[1:]:
        head = re.match(r'\s*((?:\\(?:up|down)\{[^{}]*\})+|1)[ \t]*\n', p)
        if not head:
            continue                # the explanatory header of the document
        h = head.group(1)
        out.append((len(re.findall(r'\\up\{', h)), len(re.findall(r'\\down\{', h)), p[head.end():]))
    return out
