"""Resolving references: which rules are visited, and which rule a name is taken for."""
from dom import *
from interp import Engine, GiveUp, Dead
from oblig import Monitor
from stdmodel import Natives, C, as_str
import readtoken
from parsemon import ParseTypes, strip

RULE, SYN = ('s', 'rule'), ('s', 'syntax')


class RefMonitor(Monitor):
    """Rule::update_refs for one kind of rule."""
    FN = 'piston_meta::Rule::update_refs'

    def __init__(self, prog, variant):
        Monitor.__init__(self, prog)
        self.t = ParseTypes(prog)
        self.variant = variant
        self.where = 'update_refs of ' + variant
        self.root = 'r_rule_update_refs'
        self.names_ty = prog.fns[prog.roots['r_rule_update_refs']]['locals'][2]

    def args(self):
        return [P(RULE), self.e.mk(('arg', 'names'), self.names_ty)]

    def names(self):
        return ('*', ('arg', 'names'))

    def setup(self, st):
        t = self.t
        m = st.mon
        m['#n'] = 0
        m['k'], m['match'] = I(0), None
        vi = t.variants.index(self.variant)
        st.facts.var[('arg', 'rule')] = vi
        st.store[RULE] = S(('arg', 'rule'), t.rule)
        ty = self.p.types[t.rule]['variants'][vi]['fields'][0][1]
        pt = self.p.types[ty]
        term = ('f', ('arg', 'rule'), vi, 0)
        if pt['k'] == 'adt' and pt['box']:
            term, ty = ('*', term), pt['args'][0]
        self.payload, self.pty = term, ty
        for n, fty in self.fields():
            if fty == t.rule:
                m['seen ' + n] = False
            elif self.is_rules(fty):
                m['lo ' + n] = m['hi ' + n] = None

    def fields(self):
        return self.p.types[self.pty]['variants'][0]['fields']

    def is_rules(self, ty):
        t = self.p.types[ty]
        return t['k'] == 'adt' and t['name'].endswith('Vec') and t['args'] and t['args'][0] == self.t.rule

    def current(self, st):
        v = st.store[RULE]
        if isinstance(v, S):
            v = self.e.expand(st, v)
        x = v.f[0]
        return self.e.read(st, x.cell, x.path) if isinstance(x, P) else x

    def place(self, st, ptr):
        """(field, index) of the rule under analysis that a pointer leads to."""
        x = self.e.read(st, ptr.cell, ptr.path)
        t = x.t if isinstance(x, S) else None
        for i, (n, fty) in enumerate(self.fields()):
            if fty == self.t.rule and t == ('f', self.payload, 0, i):
                return n, None
            if self.is_rules(fty) and t is not None and t[0] == 'e' and t[1] == ('f', self.payload, 0, i):
                return n, t[2]
        return None, None

    def names_ok(self, st, v):
        if not isinstance(v, SL):
            return False
        x = self.e.read(st, v.cell, v.path)
        return isinstance(x, S) and x.t == self.names() and st.holds_eq(v.lo, 0) and st.holds_eq(v.hi, atom(('len', x.t)))

    def call(self, e, st, fr, f, fid, args, rty, span):
        if f['name'] == self.FN or f['name'].endswith('Rule::update_refs'):
            if st.mon['#n'] == 0 and self.variant:
                st.mon['#n'] = 1
                return None
            self.need(st, 'C15', 'names are looked up in the list of all names', self.names_ok(st, args[1]), 'looks in %r' % (args[1],))
            self.visit(st, *self.place(st, args[0]))
            return A(rty, 0, ())
        n = f['name']
        if n.endswith('PartialEq>::eq') or n.endswith('PartialEq>::ne') or '::eq' in n[-6:] or '::ne' in n[-6:]:
            r = self.compare(e, st, f, fid, args, rty, span, n)
            if r is not None:
                return r
        return None

    def visit(self, st, n, i):
        m = st.mon
        if n is None:
            self.fail(st, 'C15', 'every part is visited', 'visits something that is no part of the rule')
        elif i is None:
            m['seen ' + n] = True
        else:
            lo, hi = m['lo ' + n], m['hi ' + n]
            if lo is None:
                m['lo ' + n], m['hi ' + n] = I(i), I(i + 1)
            elif st.holds_eq(i, hi.l):
                m['hi ' + n] = I(i + 1)
            elif st.holds_eq(i + 1, lo.l):
                m['lo ' + n] = I(i)
            elif not (st.holds_ge(i, lo.l) and st.holds_ge(hi.l - 1, i)):
                st.weak = st.weak or 'visiting parts out of order'

    # --- the search for a name --------------------------------------------------------------
    def compare(self, e, st, f, fid, args, rty, span, n):
        if self.variant != 'Node' or len(args) != 2:
            return None
        c = C(e, st, f, args, rty) if False else None
        a, b = self.text(st, args[0]), self.text(st, args[1])
        if a is None or b is None:
            return None
        own = [x for x in (a, b) if self.is_own(x)]
        other = [x for x in (a, b) if self.name_index(x) is not None]
        if not own or not other:
            return None
        j = self.name_index(other[0])
        m = st.mon
        neg = n.endswith('ne')
        k = m['k'].l
        if m['match'] is not None and st.holds_eq(j, m['match'].l):
            return B(not neg)
        if st.holds_ge(k - 1, j):
            return B(neg)
        if m['match'] is None and st.holds_eq(j, k):
            if e.choose(st, 2) == 0:
                m['match'] = I(j)
                return B(not neg)
            m['k'] = I(j + 1)
            return B(neg)
        c = ('p', ('named', j))
        return B(c_not(c) if neg else c)

    def text(self, st, v):
        k = 0
        while isinstance(v, P) and k < 6:
            v = self.e.read(st, v.cell, v.path)
            k += 1
        if isinstance(v, STR):
            # a part of a text is not the text
            return v.t if st.holds_eq(v.lo, 0) and st.holds_eq(v.hi, atom(('len', v.t))) else None
        if isinstance(v, S):
            return v.t
        return None

    def base(self, t):
        while isinstance(t, tuple) and t and t[0] == '*':
            t = t[1]
        return t

    def is_own(self, t):
        i = [n for n, _ in self.fields()].index('name')
        return self.base(t) == ('f', self.payload, 0, i)

    def name_index(self, t):
        t = self.base(t)
        if isinstance(t, tuple) and t[0] == 'e' and t[1] == self.names():
            return t[2]
        return None

    # --- what is left behind --------------------------------------------------------------------
    def returned(self, st, v):
        e, m = self.e, st.mon
        if self.variant == 'FastSelect':
            self.ok('C15', 'every part is visited')
            return
        cur = self.current(st)
        for i, (n, fty) in enumerate(self.fields()):
            if fty == self.t.rule:
                self.need(st, 'C15', 'every part is visited', m['seen ' + n], '%s is not visited' % n)
            elif self.is_rules(fty):
                ln = atom(('len', ('f', self.payload, 0, i)))
                lo, hi = m['lo ' + n], m['hi ' + n]
                if lo is None:
                    self.need_eq(st, 'C15', 'every part is visited', ln, 0, 'no part of %s is visited' % n)
                else:
                    self.need_eq(st, 'C15', 'every part is visited', lo, 0, 'visits start at part %r' % lo)
                    self.need_eq(st, 'C15', 'every part is visited', hi, ln, 'visits end at part %r of %r' % (hi, ln))
            else:
                old = e.mk(('f', self.payload, 0, i), fty)
                new = e.proj(st, cur, (('f', i, fty),))
                if self.variant == 'Node' and n == 'index':
                    self.index(st, old, new)
                else:
                    self.need(st, 'C15', 'nothing but references is changed', old == new, '%s becomes %r' % (n, new))

    def index(self, st, old, new):
        e, m = self.e, st.mon
        names = atom(('len', self.names()))
        ov, nv = e.variant(st, old), e.variant(st, new)
        if ov == 1:
            R = 'a resolved reference stays as it is'
            if not self.need(st, 'C15', R, nv == 1, 'becomes unresolved'):
                return
            a, b = [e.proj(st, x, (('v', 1), ('f', 0, self.p.types[x.ty]['variants'][1]['fields'][0][1]))) for x in (old, new)]
            self.need_eq(st, 'C15', R, a, b, 'becomes %r' % b)
            return
        R = 'a name refers to the first rule of that name'
        if nv == 1:
            b = e.proj(st, new, (('v', 1), ('f', 0, self.p.types[new.ty]['variants'][1]['fields'][0][1])))
            if self.need(st, 'C15', R, m['match'] is not None, 'refers to rule %r, which was not found to have the name' % b):
                self.need_eq(st, 'C15', R, b, m['match'], 'refers to rule %r, the first of that name is %r' % (b, m['match']))
        else:
            self.need(st, 'C15', R, m['match'] is None, 'is left unresolved though rule %r has the name' % (m['match'],))
            self.need_eq(st, 'C15', R, m['k'], names, 'is left unresolved after comparing %r of %r names' % (m['k'], names))


class SyntaxRefMonitor(RefMonitor):
    """update_refs of a syntax, Syntax::push and Syntax::new."""

    def __init__(self, prog, root):
        RefMonitor.__init__(self, prog, None or '')
        self.root = root
        self.where = root[2:]
        fn = prog.fns[prog.roots[root]]
        self.syn = strip(prog, fn['locals'][1]) if root != 'r_syntax_new' else fn['locals'][0]
        self.fn = fn
        self.variant = ''

    def args(self):
        out = [P(SYN)] if self.root != 'r_syntax_new' else []
        if self.root == 'r_syntax_push':
            out += [self.e.mk(('arg', 'name'), self.fn['locals'][2]), self.e.mk(('arg', 'new rule'), self.fn['locals'][3])]
        return out

    def part(self, n):
        i = self.t.fld(self.syn, n)
        return i, self.p.types[self.syn]['variants'][0]['fields'][i][1], ('f', ('arg', 'syntax'), 0, i)

    def names(self):
        return self.part('names')[2]

    def setup(self, st):
        st.mon['#n'] = 0
        st.mon['lo rules'] = st.mon['hi rules'] = None
        if self.root != 'r_syntax_new':
            st.store[SYN] = S(('arg', 'syntax'), self.syn)
            # names and rules are always added together
            st.assume(('eq', atom(('len', self.part('rules')[2])) - atom(('len', self.part('names')[2]))))

    def place(self, st, ptr):
        x = self.e.read(st, ptr.cell, ptr.path)
        t = x.t if isinstance(x, S) else None
        if t is not None and t[0] == 'e' and t[1] == self.part('rules')[2]:
            return 'rules', t[2]
        return None, None

    def returned(self, st, v):
        e, m = self.e, st.mon
        R = 'the names belong to the rules, in order'
        cur = v if self.root == 'r_syntax_new' else st.store[SYN]
        if isinstance(cur, S) and self.root != 'r_update_refs':
            cur = e.expand(st, cur)
        if self.root == 'r_update_refs':
            ln = atom(('len', self.part('rules')[2]))
            lo, hi = m['lo rules'], m['hi rules']
            if lo is None:
                self.need_eq(st, 'C15', 'every part is visited', ln, 0, 'no rule is visited')
            else:
                self.need_eq(st, 'C15', 'every part is visited', lo, 0, 'visits start at rule %r' % lo)
                self.need_eq(st, 'C15', 'every part is visited', hi, ln, 'visits end at rule %r of %r' % (hi, ln))
            nm = e.proj(st, cur, (('f',) + self.part('names')[:2],))
            self.need(st, 'C15', R, isinstance(nm, S) and nm.t == self.names(), 'the names become %r' % (nm,))
            return
        rules, names = cur.f[self.part('rules')[0]], cur.f[self.part('names')[0]]
        if self.root == 'r_syntax_new':
            for x in (rules, names):
                self.need(st, 'C15', 'a new syntax is empty', isinstance(x, VV) and st.holds_eq(x.n, 0), 'starts as %r' % (x,))
            return
        for what, x, (i, ty, old), new in (('rules', rules, self.part('rules'), ('arg', 'new rule')), ('names', names, self.part('names'), ('arg', 'name'))):
            ok = self.grown(st, x, old, new)
            self.need(st, 'C15', R, ok, 'the %s become %r' % (what, x))

    def grown(self, st, x, old, new):
        n = atom(('len', old))
        if isinstance(x, S) and x.t[0] == 'pushed':
            v = x.t[2]
            t = v.t if isinstance(v, (S, STR)) else v.cell[1] if isinstance(v, P) and v.cell[0] == 'm' else None
            return x.t[1] == old and self.base(t) == new
        if not isinstance(x, VV) or not st.holds_eq(x.n, n + 1):
            return False
        v = self.e.elem(st, x, n)
        t = v.t if isinstance(v, S) else v.cell[1] if isinstance(v, P) and v.cell[0] == 'm' else v.t if isinstance(v, STR) else None
        if self.base(t) != new:
            return False
        for tm, lo, hi in x.segs:
            if st.holds_eq(lo, hi) or st.holds_ge(lo, n):
                continue
            t = tm.t if isinstance(tm, S) else tm.cell[1] if isinstance(tm, P) and tm.cell[0] == 'm' else None
            if self.base(t) != ('e', old, atom(IDX)):
                return False
        return True


def run_ref(prog, what, time_limit=60):
    mon = RefMonitor(prog, what[5:]) if what.startswith('rule:') else SyntaxRefMonitor(prog, what)
    eng = Engine(prog, Natives(readtoken.install(prog)), hooks=[mon], monitor=mon, time_limit=time_limit)
    eng.track_panics = Engine.PANICS
    eng.track_ends = Engine.ENDS
    mon.e = eng
    eng.run([eng.start(prog.roots[mon.root], mon.args(), mon.setup)])
    return eng, mon


def parts(prog):
    return ['rule:' + v for v in ParseTypes(prog).variants] + ['r_update_refs', 'r_syntax_push', 'r_syntax_new']


if __name__ == '__main__':
    import sys, time
    from mir import Program
    p = Program(sys.argv[1])
    for r in sys.argv[2:] or parts(p):
        t0 = time.time()
        eng, mon = run_ref(p, r)
        print('==', r, eng.blocks_run, eng.paths, len(eng.returned), eng.incomplete, eng.unknown, '%.1fs' % (time.time() - t0))
        for k, s in sorted(mon.book.d.items()):
            print('   ', k[1:], s['ok'], s['bad'], s['open'], (s['ex'] or (s['why'],))[0])
