"""Contract expression language: parser, and evaluation into SMT terms.

  forall i in lo..hi: body        (lo <= i < hi)         exists likewise
  forall i {A[i]}, j in a..b: ..  explicit trigger
  ==>  <==>  &&  ||  !  == != < <= > >= (chained)  + - * / %  [ ]  -> .  f(..)
  if c then a else b      let x = e in b      old(e)  pre(e)
"""
import re

TOK = re.compile(r'''\s*(?:
   (?P<num>\d+\.\d+|\d+)
 | (?P<id>[A-Za-z_\\][A-Za-z_0-9]*)
 | (?P<op><==>|==>|\.\.|->|&&|\|\||==|!=|<=|>=|[-+*/%<>!()\[\],:.{}&])
)''', re.X)


class SpecError(Exception):
    pass


def tokenize(s):
    out, i = [], 0
    s = re.sub(r'//[^\n]*', ' ', s)
    while True:
        m = re.compile(r'\s*').match(s, i)
        i = m.end()
        if i >= len(s):
            return out
        m = TOK.match(s, i)
        if not m:
            raise SpecError('bad token at %r' % s[i:i + 20])
        i = m.end()
        for k in ('num', 'id', 'op'):
            if m.group(k) is not None:
                out.append((k, m.group(k)))


_cache = {}


def parse(s):
    if s not in _cache:
        p = Parser(tokenize(s), s)
        e = p.expr()
        if p.i != len(p.t):
            raise SpecError('trailing %r in %r' % (p.t[p.i:], s))
        _cache[s] = e
    return _cache[s]


class Parser:
    def __init__(self, t, s):
        self.t, self.i, self.s = t, 0, s

    def peek(self):
        return self.t[self.i][1] if self.i < len(self.t) else None

    def next(self):
        if self.i >= len(self.t):
            raise SpecError('unexpected end of %r' % self.s)
        self.i += 1
        return self.t[self.i - 1]

    def acc(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def need(self, v):
        if not self.acc(v):
            raise SpecError('expected %r, got %r in %r (at %d)' % (v, self.peek(), self.s, self.i))

    def expr(self):
        p = self.peek()
        if p in ('forall', 'exists'):
            self.next()
            binders = []
            pats = []
            while True:
                names = [self.next()[1]]
                while self.acc(','):
                    names.append(self.next()[1])
                sort = 'int'
                if self.peek() in ('as',):
                    self.next()
                    sort = self.next()[1]
                while self.acc('{'):
                    ps = [self.addsub()]
                    while self.acc(','):
                        ps.append(self.addsub())
                    self.need('}')
                    pats.append(ps)
                rng = None
                if self.acc('in'):
                    lo = self.addsub()
                    self.need('..')
                    hi = self.addsub()
                    rng = (lo, hi)
                for nm in names:
                    binders.append((nm, sort, rng))
                if not self.acc(','):
                    break
            while self.acc('{'):
                ps = [self.addsub()]
                while self.acc(','):
                    ps.append(self.addsub())
                self.need('}')
                pats.append(ps)
            self.need(':')
            return ('q', p, binders, pats, self.expr())
        if p == 'let':
            self.next()
            n = self.next()[1]
            self.need('=')if False else self._eq()
            e = self.expr()
            self.need('in')
            return ('let', n, e, self.expr())
        if p == 'if':
            self.next()
            c = self.expr()
            self.need('then')
            a = self.expr()
            self.need('else')
            return ('ite', c, a, self.expr())
        return self.iff()

    def _eq(self):
        # 'let x := e' is written 'let x == e'
        self.need('==')

    def iff(self):
        a = self.imp()
        while self.acc('<==>'):
            a = ('bin', '<==>', a, self.imp_or_q())
        return a

    def imp_or_q(self):
        if self.peek() in ('forall', 'exists', 'let', 'if'):
            return self.expr()
        return self.imp()

    def imp(self):
        a = self.orr()
        if self.acc('==>'):
            if self.peek() in ('forall', 'exists', 'let', 'if'):
                return ('bin', '==>', a, self.expr())
            return ('bin', '==>', a, self.imp())
        return a

    def _sub(self, f):
        if self.peek() in ('forall', 'exists', 'let', 'if'):
            return self.expr()
        return f()

    def orr(self):
        a = self.andd()
        while self.acc('||'):
            a = ('bin', '||', a, self._sub(self.andd))
        return a

    def andd(self):
        a = self.cmp()
        while self.acc('&&'):
            a = ('bin', '&&', a, self._sub(self.cmp))
        return a

    def cmp(self):
        a = self.addsub()
        parts = []
        while self.peek() in ('==', '!=', '<', '<=', '>', '>='):
            op = self.next()[1]
            b = self.addsub()
            parts.append(('bin', op, a, b))
            a = b
        if not parts:
            return a
        r = parts[0]
        for p in parts[1:]:
            r = ('bin', '&&', r, p)
        return r

    def addsub(self):
        a = self.muldiv()
        while self.peek() in ('+', '-'):
            op = self.next()[1]
            a = ('bin', op, a, self.muldiv())
        return a

    def muldiv(self):
        a = self.unary()
        while self.peek() in ('*', '/', '%'):
            op = self.next()[1]
            a = ('bin', op, a, self.unary())
        return a

    def unary(self):
        if self.acc('-'):
            return ('neg', self.unary())
        if self.acc('!'):
            return ('not', self.unary())
        if self.acc('*'):
            return ('deref', self.unary())
        return self.postfix()

    def postfix(self):
        k, v = self.next()
        if k == 'num':
            e = ('num', v)
        elif v == '(':
            e = self.expr()
            self.need(')')
        elif k == 'id':
            if self.peek() == '(':
                self.next()
                args = []
                if not self.acc(')'):
                    args.append(self.expr())
                    while self.acc(','):
                        args.append(self.expr())
                    self.need(')')
                e = ('call', v, args)
            else:
                e = ('id', v)
        else:
            raise SpecError('unexpected %r in %r' % (v, self.s))
        while True:
            if self.acc('['):
                i = self.expr()
                self.need(']')
                e = ('idx', e, i)
            elif self.peek() in ('->', '.'):
                self.next()
                e = ('fld', e, self.next()[1])
            else:
                return e
