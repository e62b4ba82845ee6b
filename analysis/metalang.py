"""Reads the meta language, as documented in /repo/assets/self-syntax.txt and the crate documentation,
without using any of the code under analysis. Rules are tuples:
  ('Whitespace', optional) ('Tag', text, not, inverted, property) ('Text', allow_empty, property)
  ('Number', allow_underscore, property) ('UntilAny', any, optional, property)
  ('UntilAnyOrWhitespace', any, optional, property) ('Node', name, property)
  ('Sequence', rules) ('Select', rules) ('Optional', rule) ('Not', rule) ('Repeat', optional, rule)
  ('SeparateBy', optional, allow_trail, by, rule) ('Lines', indent, rule)
"""
import json

SEPS = '[]{}():.!?"'


class Bad(Exception):
    pass


class Reader:
    def __init__(self, text):
        self.s, self.i = text, 0
        self.strings = []

    def at(self, t):
        return self.s.startswith(t, self.i)

    def take(self, t):
        if self.at(t):
            self.i += len(t)
            return True
        return False

    def need(self, t):
        if not self.take(t):
            raise Bad('expected %r at %r' % (t, self.s[self.i:self.i + 30]))

    def space(self):
        """Whitespace and comments."""
        while self.i < len(self.s):
            if self.s[self.i].isspace():
                self.i += 1
            elif self.at('//'):
                while self.i < len(self.s) and self.s[self.i] != '\n':
                    self.i += 1
            elif self.at('/*'):
                depth = 0
                while True:
                    if self.take('/*'):
                        depth += 1
                    elif self.take('*/'):
                        depth -= 1
                        if depth == 0:
                            break
                    elif self.i >= len(self.s):
                        raise Bad('open comment')
                    else:
                        self.i += 1
            else:
                break

    def name(self):
        j = self.i
        while self.i < len(self.s) and not self.s[self.i].isspace() and self.s[self.i] not in SEPS:
            self.i += 1
        if j == self.i:
            raise Bad('expected a name at %r' % self.s[j:j + 30])
        return self.s[j:self.i]

    def string(self):
        """A quoted string."""
        j = self.i
        self.need('"')
        while not self.at('"'):
            if self.i >= len(self.s):
                raise Bad('open string')
            self.i += 2 if self.at('\\') else 1
        self.i += 1
        return json.loads(self.s[j:self.i])

    def set(self):
        if self.at('"'):
            return self.string()
        self.need('_')
        n = self.name()
        for a, b in self.strings:
            if a == n:
                return b
        raise Bad('no string %r' % n)

    def prop(self):
        return self.set() if self.take(':') else None

    def opt(self):
        if self.take('?'):
            return True
        self.need('!')
        return False

    def rule(self):
        if self.take('.w'):
            return ('Whitespace', self.opt())
        if self.take('...'):
            a = self.set()
            return ('UntilAny', a, self.opt(), self.prop())
        if self.take('..'):
            a = self.set()
            return ('UntilAnyOrWhitespace', a, self.opt(), self.prop())
        if self.take('.l'):
            ind = self.take('+')
            self.need('(')
            self.space()
            r = self.rule()
            self.space()
            self.need(')')
            return ('Lines', ind, r)
        if self.take('.r'):
            o = self.opt()
            self.need('(')
            r = self.rule()
            self.need(')')
            return ('Repeat', o, r)
        if self.take('.$'):
            u = self.take('_')
            return ('Number', u, self.prop())
        if self.take('.t'):
            o = self.opt()
            return ('Text', o, self.prop())
        if self.take('.s'):
            o = self.opt()
            t = self.take('.')
            self.need('(')
            self.space()
            by = self.rule()
            self.space()
            r = self.rule()
            self.space()
            self.need(')')
            return ('SeparateBy', o, t, by, r)
        if self.take('['):
            return ('Sequence', self.rules(']'))
        if self.take('{'):
            return ('Select', self.rules('}'))
        if self.take('?'):
            return ('Optional', self.rule())
        if self.at('"') or self.at('_') or self.at('!"') or self.at('!_'):
            neg = self.take('!')
            t = self.set()
            inv, p = False, None
            if self.take(':'):
                inv = self.take('!')
                p = self.set()
            return ('Tag', t, neg, inv, p)
        if self.take('!'):
            return ('Not', self.rule())
        n = self.name()
        return ('Node', n, self.prop())

    def rules(self, end):
        out = []
        self.space()
        while not self.take(end):
            out.append(self.rule())
            self.space()
        return tuple(out)

    def document(self):
        """[(id, name, rule)]"""
        self.space()
        while self.take('_'):
            n = self.name()
            self.need(':')
            self.space()
            self.strings.append((n, self.string()))
            self.space()
        out = []
        while self.i < len(self.s):
            j = self.i
            while self.s[self.i].isdigit():
                self.i += 1
            nid = int(self.s[j:self.i])
            self.space()
            n = self.name()
            self.space()
            self.need('=')
            self.space()
            out.append((nid, n, self.rule()))
            self.space()
        return out


def read(text):
    return Reader(text).document()
