"""Reads abstract values of rules back as tuples (see metalang.py), with the debug id of every rule."""
from dom import *
from stdmodel import lit_of
from parsemon import ParseTypes

# kind -> fields in the order of metalang.py, by name
FIELDS = {
    'Whitespace': ('optional',), 'Tag': ('text', 'not', 'inverted', 'property'), 'Text': ('allow_empty', 'property'),
    'Number': ('allow_underscore', 'property'), 'UntilAny': ('any_characters', 'optional', 'property'),
    'UntilAnyOrWhitespace': ('any_characters', 'optional', 'property'), 'Node': ('name', 'property'),
    'Sequence': ('args',), 'Select': ('args',), 'Optional': ('rule',), 'Not': ('rule',), 'Repeat': ('optional', 'rule'),
    'SeparateBy': ('optional', 'allow_trail', 'by', 'rule'), 'Lines': ('indent', 'rule'),
}


class Unclear(Exception):
    pass


class View:
    def __init__(self, eng, prog):
        self.e, self.p = eng, prog
        self.t = ParseTypes(prog)

    def content(self, st, v):
        k = 0
        while isinstance(v, P) and k < 8:
            v = self.e.read(st, v.cell, v.path)
            k += 1
        return v

    def text(self, st, v):
        """A string literal as str, another string as its name."""
        v = self.content(st, v)
        if isinstance(v, STR):
            if v.t[0] == 'lit':
                return lit_of(v)
            if lin(v.lo) != ZERO or lin(v.hi) != atom(('len', v.t)):
                return ('part', v.t, v.lo, v.hi)
            return v.t
        if isinstance(v, S):
            return v.t
        raise Unclear('text %r' % (v,))

    def option(self, st, v, f):
        var = self.e.variant(st, v)
        if var == 0:
            return None
        ty = self.p.types[v.ty]['variants'][1]['fields'][0][1]
        return f(st, self.e.proj(st, v, (('v', 1), ('f', 0, ty))))

    def bool(self, st, v):
        if isinstance(v, B):
            if v.c in (True, False):
                return v.c
            d = st.facts.decide(v.c)
            return v.c if d is None else d
        raise Unclear('flag %r' % (v,))

    def elements(self, st, v):
        v = self.content(st, v)
        if not isinstance(v, VV):
            raise Unclear('list %r' % (v,))
        n = st.facts.const_of(v.n)
        if n is None:
            raise Unclear('list of %r elements' % (v.n,))
        return [self.e.elem(st, v, i) for i in range(n)]

    def fld(self, st, v, ty, n):
        i = self.t.fld(ty, n)
        return self.e.proj(st, v, (('f', i, self.p.types[ty]['variants'][0]['fields'][i][1]),))

    def rule(self, st, v, ids=None):
        v = self.content(st, v)
        var = self.e.variant(st, v)
        kind = self.t.variants[var]
        ty = self.p.types[self.t.rule]['variants'][var]['fields'][0][1]
        x = self.content(st, self.e.proj(st, v, (('v', var), ('f', 0, ty))))
        pt = self.p.types[ty]
        if pt['k'] == 'adt' and pt['box']:
            ty = pt['args'][0]
        if kind not in FIELDS:
            raise Unclear('rule of kind %s' % kind)
        out = [kind]
        sub = []
        for n in FIELDS[kind]:
            y = self.fld(st, x, ty, n)
            if n in ('text', 'name', 'any_characters'):
                out.append(self.text(st, y))
            elif n == 'property':
                out.append(self.option(st, y, self.text))
            elif n == 'args':
                out.append(tuple(self.rule(st, q, sub) for q in self.elements(st, y)))
            elif n in ('rule', 'by'):
                out.append(self.rule(st, y, sub))
            else:
                out.append(self.bool(st, y))
        if ids is not None:
            index = self.option(st, self.fld(st, x, ty, 'index'), lambda st, v: v.l) if kind == 'Node' else None
            ids.append((kind, self.fld(st, x, ty, 'debug_id').l, sub, out[1] if kind == 'Node' else None, index))
        return tuple(out)

    def syntax(self, st, v):
        """[(name, rule, ids)]"""
        if isinstance(v, S):
            v = self.e.expand(st, v)
        ty = v.ty
        rules = self.elements(st, self.fld(st, v, ty, 'rules'))
        names = self.elements(st, self.fld(st, v, ty, 'names'))
        if len(rules) != len(names):
            return None
        out = []
        for r, n in zip(rules, names):
            ids = []
            out.append((self.text(st, n), self.rule(st, r, ids), ids))
        return out


def show_rule(r):
    if r is None:
        return 'nothing'
    if isinstance(r, tuple) and r and r[0] in FIELDS:
        return '%s(%s)' % (r[0], ', '.join('%s: %s' % (n, show_rule(x)) for n, x in zip(FIELDS[r[0]], r[1:])))
    if isinstance(r, tuple) and r and isinstance(r[0], tuple) and r[0] and r[0][0] in FIELDS or r == ():
        return '[%s]' % ', '.join(show_rule(x) for x in r)
    if isinstance(r, tuple):
        return show(r)
    return repr(r)


def differ(a, b, path=''):
    """Where two rules differ: (path, a part, b part), or None."""
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] in FIELDS and a[0] == b[0]:
        for n, x, y in zip(FIELDS[a[0]], a[1:], b[1:]):
            d = differ(x, y, '%s.%s' % (path, n))
            if d:
                return d
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and path.endswith('args'):
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, '%s[%d]' % (path, i))
            if d:
                return d
    return path, a, b
