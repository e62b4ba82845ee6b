"""Conversion of data read from a syntax document into rules. The shapes of data come from the documented
grammar: every way it lets a construct be written, with all names, texts and flags left open. What each
shape means is stated here independently of the converter."""
import struct
from dom import *
from interp import Engine, GiveUp
from oblig import Monitor
from stdmodel import Natives, skey
import readtoken, metalang
from parsemon import ParseTypes, strip
from grammon import DOC
from ruleview import View, Unclear, show_rule, differ, FIELDS

DATA, IGN = ('s', 'data'), ('s', 'ignored')
NEED = object()
# construct -> rule kind, [(field, property, how it is written, value when it is left out)]
MEANING = {
    'whitespace': ('Whitespace', [('optional', 'optional', 'bool', NEED)]),
    'tag': ('Tag', [('text', 'text', 'set', NEED), ('not', 'not', 'bool', False), ('inverted', 'inverted', 'bool', False),
                    ('property', 'property', 'set', None)]),
    'text': ('Text', [('allow_empty', 'allow_empty', 'bool', True), ('property', 'property', 'set', None)]),
    'number': ('Number', [('allow_underscore', 'underscore', 'bool', False), ('property', 'property', 'set', None)]),
    'until_any': ('UntilAny', [('any_characters', 'any_characters', 'set', NEED), ('optional', 'optional', 'bool', False),
                               ('property', 'property', 'set', None)]),
    'until_any_or_whitespace': ('UntilAnyOrWhitespace', [('any_characters', 'any_characters', 'set', NEED),
                                                         ('optional', 'optional', 'bool', False), ('property', 'property', 'set', None)]),
    'reference': ('Node', [('name', 'name', 'str', NEED), ('property', 'property', 'set', None)]),
    'sequence': ('Sequence', [('args', 'rule', 'rules', ())]),
    'select': ('Select', [('args', 'rule', 'rules', ())]),
    'optional': ('Optional', [('rule', 'rule', 'rule', NEED)]),
    'not': ('Not', [('rule', 'rule', 'rule', NEED)]),
    'repeat': ('Repeat', [('optional', 'optional', 'bool', NEED), ('rule', 'rule', 'rule', NEED)]),
    'separated_by': ('SeparateBy', [('optional', 'optional', 'bool', True), ('allow_trail', 'allow_trail', 'bool', False),
                                    ('by', 'by', 'rule', NEED), ('rule', 'rule', 'rule', NEED)]),
    'lines': ('Lines', [('indent', 'indent', 'bool', False), ('rule', 'rule', 'rule', NEED)]),
}


# --- shapes --------------------------------------------------------------------------------------
class Shapes:
    """Ways in which the documented grammar lets a construct be written, as lists of events:
    ('start', name) ('end', name) ('bool', name) ('str', name) ('num', name) ('child', name)"""

    def __init__(self):
        self.g = {n: r for _, n, r in metalang.read(open(DOC, encoding='utf-8').read())}

    def gen(self, r):
        k = r[0]
        if k == 'Whitespace' or k == 'Not':
            return [()]
        if k == 'Tag':
            return [()] if r[4] is None else [(('bool', r[4]),)]
        if k in ('Text', 'UntilAny', 'UntilAnyOrWhitespace'):
            p = r[-1]
            return [()] if p is None else [(('str', p),)]
        if k == 'Number':
            return [()] if r[2] is None else [(('num', r[2]),)]
        if k == 'Sequence':
            out = [()]
            for x in r[1]:
                out = [a + b for a in out for b in self.gen(x)]
            return uniq(out)
        if k == 'Select':
            return uniq([a for x in r[1] for a in self.gen(x)])
        if k == 'Optional':
            return uniq(self.gen(r[1]) + [()])
        if k in ('Repeat', 'SeparateBy', 'Lines'):
            one = self.gen(r[-1])
            least = 0 if k == 'Lines' or r[1] else 1
            out = [()] if least == 0 else []
            return uniq(out + one + [a + b for a in one for b in one] + [a + b + c for a in one[:1] for b in one[:1] for c in one[:1]])
        if k == 'Node':
            if r[1] == 'rule':
                return [(('child', r[2]),)]
            inner = self.gen(self.g[r[1]])
            if r[2] is None:
                return inner
            return [(('start', r[2]),) + a + (('end', r[2]),) for a in inner]
        raise GiveUp('grammar rule ' + k)

    def constructs(self):
        """[(construct, events inside)]"""
        out = []
        rule = self.g['rule']
        for alt in rule[1] if rule[0] == 'Select' else [rule]:
            if alt[0] == 'Node' and alt[2] is not None:
                out += [(alt[2], s) for s in self.gen(self.g[alt[1]])]
        return out


def uniq(l):
    out = []
    for x in l:
        if x not in out:
            out.append(x)
    return out


WS = ('whitespace', (('bool', 'optional'),))


def written(construct, events, children=WS):
    """A rule property written out: the construct with every child written as the given one."""
    out = [('start', construct)]
    for e in events:
        if e[0] == 'child':
            out += [('start', e[1])] + written(*children) + [('end', e[1])]
        else:
            out.append(e)
    return out + [('end', construct)]


def node(rule_events, nid=7, rules=1):
    out = [('start', 'node'), ('num', 'id', nid), ('str', 'name')]
    return out + [('start', 'rule')] + rule_events + [('end', 'rule'), ('end', 'node')]


STRING = [('start', 'string'), ('str', 'name'), ('str', 'text'), ('end', 'string')]


def shapes():
    """[(name, events, whether every part is understood)]"""
    sh = Shapes()
    cs = sh.constructs()
    out = []
    for i, (c, ev) in enumerate(cs):
        name = '%s %d' % (c, i)
        refs = sum(1 for e in ev if e == ('str', 'ref'))
        for strings in ([2] if refs else [0]) + ([0] if refs == 1 else []):
            out.append(('%s, %d strings' % (name, strings), STRING * strings + node(written(c, ev)), True))
    # every construct as a part of every construct that has parts
    parts = {}
    for c, ev in cs:
        if ('str', 'ref') not in ev:
            parts[c] = ev if len(ev) >= len(parts.get(c, ())) else parts[c]
    for c, ev in parts.items():
        if any(e[0] == 'child' for e in ev):
            for d, dv in parts.items():
                out.append(('%s of %s' % (c, d), node(written(c, ev, (d, dv))), True))
    w = written(*WS)
    out.append(('no nodes', [], True))
    out.append(('only strings', STRING * 2, True))
    out.append(('two nodes', node(w, 0) + node(w, 12), True))
    seq = written('sequence', (('child', 'rule'), ('child', 'rule')))
    out.append(('three nodes', node(seq, 3) + node(w, 3) + node(seq, 4), True))
    # data that does not come from the grammar: nothing may be dropped in silence
    for c, ev in parts.items():
        ev = written(c, ev)
        for i in range(len(ev) + 1):
            for x in ([('bool', 'unheard of')], [('start', 'unheard of'), ('bool', 'optional'), ('end', 'unheard of')]):
                out.append(('%s with %s at %d' % (c, x[0][0], i), node(ev[:i] + x + ev[i:]), False))
        for i in range(1, len(ev) - 1):
            if ev[i][0] in ('bool', 'str'):
                out.append(('%s without item %d' % (c, i), node(ev[:i] + ev[i + 1:]), None))
    n = node(w)
    for i in range(len(n) + 1):
        out.append(('node with %d items, then one unheard of' % i, n[:i] + [('bool', 'unheard of')] + n[i:], False))
    out.append(('node without a name', n[:2] + n[3:], None))
    out.append(('node without a rule', n[:3] + n[-1:], None))
    out.append(('string after a node', n + STRING, False))
    s = STRING
    for i in range(len(s) + 1):
        out.append(('string with %d items, then one unheard of' % i, s[:i] + [('bool', 'unheard of')] + s[i:] + n, False))
    out.append(('string without a text', s[:2] + s[3:] + n, None))
    for i in range(len(n)):
        if n[i][0] in ('start', 'end'):
            out.append(('unbalanced at %d' % i, n[:i] + n[i + 1:], False))
            out.append(('misnamed at %d' % i, n[:i] + [(n[i][0], 'unheard of')] + n[i + 1:], False))
    return out


# --- what a document means -------------------------------------------------------------------
class Missing(Exception):
    """The document lacks something, so that it has no meaning and must be reported."""


class Tree:
    def __init__(self, name):
        self.name, self.items, self.end = name, [], None


def tree(events):
    """Nested items; None if nodes are not nested properly."""
    root = Tree(None)
    stack = [root]
    for i, e in enumerate(events):
        if e[0] == 'start':
            t = Tree(e[1])
            stack[-1].items.append(('node', e[1], t))
            stack.append(t)
        elif e[0] == 'end':
            if len(stack) == 1 or stack[-1].name != e[1]:
                return None
            stack.pop()
        else:
            stack[-1].items.append((e[0], e[1], i))
    return root if len(stack) == 1 else None


class ConvertMonitor(Monitor):
    def __init__(self, prog, what, events, good):
        Monitor.__init__(self, prog)
        self.t = ParseTypes(prog)
        self.what, self.events, self.good = what, events, good
        self.where = 'convert'
        fn = prog.fns[prog.roots['r_convert']]
        self.ign_ty = strip(prog, fn['locals'][2])
        md = strip(prog, fn['locals'][1])
        self.rmd = prog.types[md]['of']

    def args(self):
        return [SL(DATA, (), 0, len(self.events)), P(IGN)]

    def str_of(self, i):
        t = ('arg', '%s %d' % (self.events[i][1], i))
        return STR(t, 0, atom(('len', t)))

    def flag_of(self, i):
        return ('p', ('arg', '%s %d' % (self.events[i][1], i)))

    def setup(self, st):
        e, p = self.e, self.p
        fields = p.types[self.rmd]['variants'][0]['fields']
        segs = []
        for i, ev in enumerate(self.events):
            md = [ty for n, ty in fields if n == 'data'][0]
            name = ev[1]
            lit = STR(('lit', name), 0, len(name.encode()))
            vn = {'start': 'StartNode', 'end': 'EndNode', 'bool': 'Bool', 'str': 'String', 'num': 'F64'}[ev[0]]
            vi = [v['name'] for v in p.types[md]['variants']].index(vn)
            fs = [P(e.heap(st, lit))]
            if ev[0] == 'bool':
                fs.append(B(self.flag_of(i)))
            elif ev[0] == 'str':
                fs.append(P(e.heap(st, self.str_of(i))))
            elif ev[0] == 'num':
                fs.append(FL(struct.unpack('<Q', struct.pack('<d', float(ev[2])))[0]))
            x = A(md, vi, fs)
            off, ln = atom(('arg', 'offset %d' % i)), atom(('arg', 'length %d' % i))
            segs.append((A(self.rmd, 0, [x if n == 'data' else I(off) if n == 'offset' else I(ln) for n, _ in fields]), lin(i), lin(i + 1)))
        st.store[DATA] = VV(self.t.tokens, segs, len(segs))
        st.store[IGN] = VV(self.ign_ty, (), 0)
        st.mon['resolved'] = None

    def call(self, e, st, fr, f, fid, args, rty, span):
        if f['name'] == 'piston_meta::meta_rules::update_refs':
            x = e.read(st, args[0].cell, args[0].path)
            st.mon['resolved'] = View(e, self.p).fld(st, x, x.ty, 'rules').n
            return A(rty, 0, ())
        return None

    # --- the meaning ---------------------------------------------------------------------
    def set_text(self, st, t, strings):
        """The text a set stands for; None if that is undefined."""
        out = None
        for k, n, x in t.items:
            if k == 'str' and n == 'value':
                out = self.str_of(x).t
            elif k == 'str' and n == 'ref':
                r = self.str_of(x)
                out = None
                for nm, tx in strings:
                    key = tuple(sorted((skey(nm), skey(r)), key=repr))
                    d = st.facts.decide(('p', ('streq',) + key))
                    if d is None:
                        self.fail(st, 'C17', 'a reused string is the first string of that name', 'whether %r is %r is not looked at' % (r, nm))
                        raise Unclear('reference')
                    if d:
                        out = tx.t
                        break
            else:
                raise Missing('unheard of')
        if out is None:
            raise Missing('undefined string')
        return out

    def rule_of(self, st, t, strings):
        """The rule written in a rule property."""
        if len(t.items) != 1 or t.items[0][0] != 'node' or t.items[0][1] not in MEANING:
            raise Missing('unheard of')
        t = t.items[0][2]
        kind, fields = MEANING[t.name]
        vals = {}
        for k, n, x in t.items:
            f = [f for f in fields if f[1] == n]
            if not f:
                raise Missing('unheard of')
            fname, _, how, _ = f[0]
            if how in ('rule', 'rules') and k == 'node':
                v = self.rule_of(st, x, strings)
                vals[fname] = vals.get(fname, ()) + (v,) if how == 'rules' else v
            elif how == 'set' and k == 'node':
                vals[fname] = self.set_text(st, x, strings)
            elif how == 'bool' and k == 'bool':
                c = self.flag_of(x)
                d = st.facts.decide(c)
                vals[fname] = c if d is None else d
            elif how == 'str' and k == 'str':
                vals[fname] = self.str_of(x).t
            else:
                raise Missing('unheard of')
        for fname, n, how, default in fields:
            if fname not in vals:
                if default is NEED:
                    raise Missing('no %s' % n)
                vals[fname] = default
        return (kind,) + tuple(vals[f] for f in FIELDS[kind])

    def meaning(self, st):
        """[(name, rule, id)]"""
        t = tree(self.events)
        if t is None:
            raise Missing('not nested')
        strings, nodes = [], []
        for k, n, x in t.items:
            if k == 'node' and n == 'string' and not nodes:
                got = {}
                for k2, n2, y in x.items:
                    if k2 != 'str' or n2 not in ('name', 'text'):
                        raise Missing('unheard of')
                    got[n2] = self.str_of(y)
                if len(got) != 2:
                    raise Missing('string without name or text')
                strings.append((got['name'], got['text']))
            elif k == 'node' and n == 'node':
                got = {}
                for k2, n2, y in x.items:
                    if (k2, n2) == ('num', 'id'):
                        got['id'] = self.events[y][2]
                    elif (k2, n2) == ('str', 'name'):
                        got['name'] = self.str_of(y).t
                    elif (k2, n2) == ('node', 'rule'):
                        got['rule'] = self.rule_of(st, y, strings)
                    else:
                        raise Missing('unheard of')
                if 'name' not in got or 'rule' not in got:
                    raise Missing('node without name or rule')
                nodes.append((got['name'], got['rule'], got.get('id', 0)))
            else:
                raise Missing('unheard of')
        return nodes

    def returned(self, st, v):
        e = self.e
        var = e.variant(st, v)
        ign = st.store[IGN]
        silent = var == 0 and st.holds_eq(ign.n, 0)
        st.note('data: %s' % ' '.join('%s:%s' % (x[0], x[1]) for x in self.events))
        try:
            want = self.meaning(st)
        except Missing as x:
            self.need(st, 'C19', 'data that can not be converted is reported', not silent, '%s: converted without complaint (%s)' % (self.what, x))
            return
        except Unclear:
            return
        if not self.need(st, 'C19', 'data that the grammar produces is converted', silent,
                         '%s: %s' % (self.what, 'refused' if var else 'partly ignored')):
            return
        ty = self.p.types[v.ty]['variants'][0]['fields'][0][1]
        syn = e.proj(st, v, (('v', 0), ('f', 0, ty)))
        try:
            got = View(e, self.p).syntax(st, syn)
        except Unclear as x:
            raise GiveUp('the converted syntax holds %s' % x)
        R = 'every node becomes a rule of its name, in order'
        if not self.need(st, 'C17', R, got is not None and [g[0] for g in got] == [w[0] for w in want],
                         '%s: has the rules %s, the document %s' % (self.what, [show(g[0]) for g in got or []], [show(w[0]) for w in want])):
            return
        n = View(e, self.p).fld(st, syn, syn.ty, 'rules').n
        self.need(st, 'C19', 'references are resolved after the last rule was added', st.mon['resolved'] is not None and st.holds_eq(st.mon['resolved'], n),
                  '%s: resolved when there were %r of %r rules' % (self.what, st.mon['resolved'], n))
        for (name, r, ids), (_, w, nid) in zip(got, want):
            d = differ(r, w)
            c = kind_of(w, d)
            self.need(st, 'C17', 'a %s is converted with its settings' % c, d is None,
                      d and '%s: %s becomes %s, written as %s' % (self.what, (w[0] + d[0]), show_rule(d[1]), show_rule(d[2])))
            if d is not None:
                continue
            k = [nid * 1000]

            def number(ids):
                for kind, i, sub, ref, index in ids:
                    number(sub)
                    if kind == 'Node':
                        self.need(st, 'C19', 'references are resolved by name', index is None, '%s: the reference to %s starts as resolved to %r'
                                  % (self.what, show_rule(ref), index))
                    k[0] += 1
                    self.need_eq(st, 'C18', 'rules are numbered one by one from a thousand times the number of their node', i, k[0],
                                 '%s: %s has debug id %r' % (self.what, kind, i))
            number(ids)


def kind_of(w, d):
    if d is None:
        return w[0]
    x = w
    import re
    for f, i in re.findall(r'\.(\w+)(?:\[(\d+)\])?', d[0]):
        y = x[1 + FIELDS[x[0]].index(f)]
        if i:
            y = y[int(i)]
        if isinstance(y, tuple) and y and y[0] in FIELDS:
            x = y
        else:
            break
    return x[0]


def run_convert(prog, lo, hi, time_limit=10):
    """Shapes lo..hi; returns the engines' summed figures."""
    from oblig import Book
    book = Book()
    engs = []
    for what, events, good in shapes()[lo:hi]:
        mon = ConvertMonitor(prog, what, events, good)
        eng = Engine(prog, Natives(readtoken.install(prog)), hooks=[mon], monitor=mon, time_limit=time_limit, max_blocks=20000)
        eng.straight = True
        eng.track_panics = Engine.PANICS
        eng.track_ends = Engine.ENDS
        mon.e = eng
        eng.run([eng.start(prog.roots['r_convert'], mon.args(), mon.setup)])
        book.merge(mon.book)
        engs.append((what, eng))
    return engs, book


if __name__ == '__main__':
    import sys, time
    from mir import Program
    sys.setrecursionlimit(20000)
    p = Program(sys.argv[1])
    t0 = time.time()
    sh = shapes()
    print(len(sh), 'shapes')
    lo, hi = (int(x) for x in sys.argv[2:4]) if len(sys.argv) > 3 else (0, len(sh))
    engs, book = run_convert(p, lo, hi)
    print('%.1fs' % (time.time() - t0), sum(e.blocks_run for _, e in engs), 'blocks', sum(len(e.returned) for _, e in engs), 'returns')
    for w, e in engs:
        if e.incomplete or e.unknown:
            print('  ', w, e.incomplete, e.unknown)
    for k, s in sorted(book.d.items()):
        print('   ', k[1:], s['ok'], s['bad'], s['open'], (s['ex'] or (s['why'],))[0])
