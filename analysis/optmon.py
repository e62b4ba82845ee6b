"""The optimiser: what it may turn each rule into, and what its byte table may say."""
from dom import *
from interp import Engine, GiveUp, Dead
from oblig import Monitor
from stdmodel import Natives
import readtoken
from parsemon import ParseTypes


def term_has(x, y):
    return x == y or isinstance(x, tuple) and any(term_has(z, y) for z in x)


class OptMonitor(Monitor):
    """Shared: the three optimiser functions by name, replaced by what is proved of them."""
    own = None              # the function this analysis follows into

    def __init__(self, prog, variant=None):
        Monitor.__init__(self, prog)
        self.t = ParseTypes(prog)
        self.variant = variant
        self.fid = {}
        for i, f in enumerate(prog.fns):
            for n in ('optimize_rule', 'unique_byte', 'unique_table_from_select'):
                if f['name'] == 'piston_meta::optimize::' + n:
                    self.fid[i] = n

    def payload(self, st):
        """The fields of the rule under analysis."""
        vi = self.t.variants.index(self.variant)
        st.facts.var[('arg', 'rule')] = vi
        ty = self.p.types[self.t.rule]['variants'][vi]['fields'][0][1]
        term = ('f', ('arg', 'rule'), vi, 0)
        pt = self.p.types[ty]
        if pt['k'] == 'adt' and pt['box']:
            return ('*', term), pt['args'][0]
        return term, ty

    def field(self, term, ty, name):
        i = self.t.fld(ty, name)
        return self.e.mk(('f', term, 0, i), self.p.types[ty]['variants'][0]['fields'][i][1])

    def rule_arg(self):
        return P(('m', ('arg', 'rule'), self.t.rule))

    def refs(self):
        return self.e.mk(('arg', 'refs'), self.t.refs_ty)

    def setup(self, st):
        st.mon['#n'] = 0

    def content(self, st, v):
        k = 0
        while isinstance(v, P) and k < 6:
            v = self.e.read(st, v.cell, v.path)
            k += 1
        return v

    def term(self, st, v):
        v = self.content(st, v)
        if isinstance(v, S):
            return v.t
        raise GiveUp('%r given to the optimiser' % (v,))

    def whole(self, st, v, term):
        """Is this slice all of the list named by term?"""
        if not isinstance(v, SL):
            return False
        x = self.e.read(st, v.cell, v.path)
        return isinstance(x, S) and x.t == term and st.holds_eq(v.lo, 0) and st.holds_eq(v.hi, atom(('len', term)))

    def wellformed(self, st, cond):
        """A resolved reference is an index of the list of rules (C15)."""
        if cond[0] != 'ge' or getattr(self, 'variant', None) != 'Node':
            return False
        n = [x for x in cond[1].t if x[1] == 1]
        i = [x for x in cond[1].t if x[1] == -1]
        return cond[1].c == -1 and len(n) == len(i) == 1 and len(cond[1].t) == 2 and n[0][0] == ('len', self.refs_term_in(st)) and term_has(i[0][0], self.payload(st)[0])

    def refs_term(self):
        return ('arg', 'refs')

    def refs_term_in(self, st):
        r = self.refs()
        x = self.e.read(st, r.cell, r.path)
        return x.t

    def call(self, e, st, fr, f, fid, args, rty, span):
        n = self.fid.get(fid)
        if n is None:
            return None
        if n == self.own and st.mon['#n'] == 0:
            st.mon['#n'] = 1
            return None
        self.need(st, 'C14', 'references are looked up in the list of all rules', self.whole(st, args[1], self.refs_here(st)),
                  '%s gets %r' % (n, args[1]))
        r = self.term(st, args[0])
        if n == 'optimize_rule':
            return S(('opt', r), rty)
        if n == 'unique_byte':
            if e.choose(st, 2) == 0:
                return A(rty, 0, ())
            b = atom(('ub', r))
            st.assume(('ge', b))
            st.assume(('ge', lin(255) - b))
            return A(rty, 1, [I(b)])
        u = atom(('upto', r))
        sel = self.p.types[strip(self.p, f['locals'][1])]
        i = self.t.fld(strip(self.p, f['locals'][1]), 'args')
        st.assume(('ge', u))
        st.assume(('ge', lin(255) - u))
        st.assume(('ge', atom(('len', ('f', r, 0, i))) - u))
        els = self.p.types[rty]['els']
        return A(rty, 0, [S(('tab', r), els[0]), I(u)])

    def fits_from(self, st, tm, lo, hi, pos, args):
        """Are the elements lo..hi made by a template those of the list args from pos on?"""
        if not isinstance(tm, S):
            return False
        t = tm.t[1] if tm.t[0] == 'opt' else tm.t
        if t[0] != 'e' or t[1] != args:
            return False
        i = subst_lin(t[2], {IDX: lo})
        if not st.holds_eq(i, pos):
            return False
        return st.holds_eq(hi, lo + 1) or t[2] - i == atom(IDX) - lo

    def refs_here(self, st):
        return self.refs_term_in(st)


def strip(p, ty):
    while p.types[ty]['k'] in ('ref', 'ptr'):
        ty = p.types[ty]['to']
    return ty


class ByteMonitor(OptMonitor):
    """unique_byte: a byte is only given for a rule that fails unless the text goes on with it."""
    own = 'unique_byte'

    def __init__(self, prog, variant):
        OptMonitor.__init__(self, prog, variant)
        self.where = 'unique_byte of ' + variant

    def args(self):
        return [self.rule_arg(), self.refs()]

    def setup(self, st):
        OptMonitor.setup(self, st)
        self.payload(st)

    def returned(self, st, v):
        e, t = self.e, self.t
        rule = 'a byte is given only for rules that fail on any other byte'
        var = e.variant(st, v)
        if var == 0:
            self.ok('C14', rule)
            return
        if isinstance(v, S):
            v = e.expand(st, v)
        b = v.f[0].l
        term, ty = self.payload(st)
        fl = lambda n: self.field(term, ty, n)
        k = self.variant
        if k == 'Text':
            self.need_eq(st, 'C14', rule, b, 0x22, 'gives %r' % b)
        elif k == 'Tag':
            self.need(st, 'C14', rule, c_not(fl('not').c), 'gives a byte for a negated tag')
            x = self.content(st, fl('text'))
            n = atom(('len', x.t))
            self.need(st, 'C14', rule, ('ge', n - 1), 'gives a byte for an empty tag')
            self.need_eq(st, 'C14', rule, b, e.byte_at(x.t, ZERO) if not isinstance(x, STR) else e.byte_at(x.t, x.lo), 'gives %r' % b)
        elif k in ('Select', 'Sequence'):
            a = self.content(st, fl('args'))
            first = ('ub', e.elem(st, a, 0).t)
            self.need(st, 'C14', rule, ('ge', atom(('len', a.t)) - 1), 'gives a byte without parts')
            if k == 'Select':
                self.need_eq(st, 'C14', rule, atom(('len', a.t)), 1, 'gives a byte for several alternatives')
            self.need_eq(st, 'C14', rule, b, atom(first), 'gives %r' % b)
        elif k in ('SeparateBy', 'Repeat'):
            self.need(st, 'C14', rule, c_not(fl('optional').c), 'gives a byte although it may be left out')
            self.need_eq(st, 'C14', rule, b, atom(('ub', self.content(st, fl('rule')).t)), 'gives %r' % b)
        elif k == 'Node':
            ix = fl('index')
            iv = e.variant(st, ix)
            self.need(st, 'C14', rule, iv == 1, 'gives a byte for an unresolved reference')
            if iv == 1:
                x = e.proj(st, ix, (('v', 1), ('f', 0, self.p.types[ix.ty]['variants'][1]['fields'][0][1])))
                refs = self.refs()
                self.need_eq(st, 'C14', rule, b, atom(('ub', e.elem(st, e.read(st, refs.cell, refs.path), x.l).t)), 'gives %r' % b)
        elif k == 'Not':
            r = self.content(st, fl('rule'))
            iv = e.variant(st, r)
            inner = self.t.variants[iv]
            self.need(st, 'C14', rule, inner == 'Not', 'gives a byte for a negated %s' % inner)
            if inner == 'Not':
                q = self.content(st, e.mk(('f', r.t, iv, 0), self.p.types[self.t.rule]['variants'][iv]['fields'][0][1]))
                q = self.content(st, self.field(q.t, q.ty, 'rule'))
                self.need_eq(st, 'C14', rule, b, atom(('ub', q.t)), 'gives %r' % b)
        else:
            self.fail(st, 'C14', rule, 'gives %r for %s' % (b, k))


class TableMonitor(OptMonitor):
    """unique_table_from_select: entry b is i exactly for the byte b of alternative i."""
    own = 'unique_table_from_select'

    def __init__(self, prog):
        OptMonitor.__init__(self, prog)
        self.where = 'unique_table_from_select'
        fn = prog.fns[prog.roots['r_unique_table']]
        self.sel = strip(prog, fn['locals'][1])
        self.arr = prog.types[fn['locals'][0]]['els'][0]

    def args(self):
        return [P(('m', ('arg', 'select'), self.sel)), self.refs()]

    def setup(self, st):
        OptMonitor.setup(self, st)
        st.mon['k'] = I(0)

    def sel_args(self):
        i = self.t.fld(self.sel, 'args')
        return self.e.mk(('f', ('arg', 'select'), 0, i), self.p.types[self.sel]['variants'][0]['fields'][i][1])

    def written(self, st, cell, path):
        if not path or path[-1][0] != 'i':
            return
        v = self.e.read(st, cell, path[:-1])
        if not isinstance(v, S) or v.ty != self.arr or v.t[0] != 'upd':
            return
        old, i, x = v.t[1], v.t[2], v.t[3]
        k = st.mon['k'].l
        R = 'entry b of the table is the only alternative that starts with byte b'
        a = self.sel_args()
        self.need(st, 'C14', R, ('ge', atom(('len', a.t)) - k - 1), 'fills entry %r' % i)
        self.need_eq(st, 'C14', R, i, atom(('ub', self.e.elem(st, a, k).t)), 'alternative %r goes to entry %r' % (k, i))
        self.need_eq(st, 'C14', R, x.l, k, 'alternative %r is entered as %r' % (k, x.l))
        # x is at most 178 here, and never the mark of an empty entry: a byte can start a rule only if it can start a
        # character, there are 179 such bytes, and each alternative before this one has taken another
        before = self.e.elem(st, S(old, self.arr), i)
        self.need_eq(st, 'C14', R, before.l, 255, 'overwrites an entry that is taken')
        st.mon['k'] = I(k + 1)
        # from here on the table has another name, so that what was read before is not believed
        st.store[cell] = self.e.upd(st, st.store[cell], path[:-1], S(('tabv', k + 1), self.arr))

    def returned(self, st, v):
        if isinstance(v, S):
            v = self.e.expand(st, v)
        tab, upto = v.f
        k = st.mon['k'].l
        R = 'as many alternatives are promised as the table holds'
        self.need_eq(st, 'C14', R, upto, k, 'promises %r alternatives, the table holds %r' % (upto, k))
        good = isinstance(tab, S) and (tab.t[0] == 'tabv' and st.holds_eq(tab.t[1], k) or st.holds_eq(k, 0))
        self.need(st, 'C14', 'the table that was filled is returned', good, 'returns %r' % (tab,))


class RuleMonitor(OptMonitor):
    """optimize_rule: same rule with optimised parts; a choice keeps its alternatives in order."""
    own = 'optimize_rule'

    def __init__(self, prog, variant):
        OptMonitor.__init__(self, prog, variant)
        self.where = 'optimize_rule of ' + variant

    def args(self):
        return [self.rule_arg(), self.refs()]

    def setup(self, st):
        OptMonitor.setup(self, st)
        self.payload(st)

    def fields(self, ty):
        return self.p.types[ty]['variants'][0]['fields']

    def open(self, st, v):
        """(variant, payload type, payload value) of a rule value."""
        v = self.content(st, v)
        var = self.e.variant(st, v)
        ty = self.p.types[self.t.rule]['variants'][var]['fields'][0][1]
        x = self.content(st, self.e.proj(st, v, (('v', var), ('f', 0, ty))))
        pt = self.p.types[ty]
        return self.t.variants[var], (pt['args'][0] if pt['k'] == 'adt' and pt['box'] else ty), x

    def returned(self, st, v):
        if isinstance(v, S) and v.t == ('arg', 'rule'):
            self.ok('C14', 'an optimised rule keeps its kind, settings and parts')
            return
        R = 'an optimised rule keeps its kind, settings and parts'
        term, ty = self.payload(st)
        if self.variant in ('Select',):
            return self.choice(st, v, term, ty)
        if isinstance(v, S):
            self.need(st, 'C14', R, v.t in (('arg', 'rule'), ('opt', ('arg', 'rule'))), 'becomes %r' % (v,))
            return
        kind, ty2, x = self.open(st, v)
        if not self.need(st, 'C14', R, kind == self.variant, '%s becomes %s' % (self.variant, kind)):
            return
        if isinstance(x, S) and x.t == term:
            self.ok('C14', R)
            return
        for i, (n, fty) in enumerate(self.fields(ty)):
            a = self.e.mk(('f', term, 0, i), fty)
            b = self.e.proj(st, x, (('f', i, fty),))
            self.same_or_opt(st, R, n, a, b)

    def same_or_opt(self, st, R, n, a, b):
        a, b = self.content(st, a), self.content(st, b)
        if a == b:
            self.ok('C14', R)
            return
        if isinstance(a, S) and a.ty == self.t.rule:
            self.need(st, 'C14', R, isinstance(b, S) and b.t in (a.t, ('opt', a.t)), '%s becomes %r' % (n, b))
        elif isinstance(a, S) and isinstance(b, VV):
            ok = st.holds_eq(b.n, atom(('len', a.t)))
            good = True
            for tm, lo, hi in b.segs:
                good = good and (st.holds_eq(lo, hi) or self.fits_from(st, tm, lo, hi, lo, a.t))
            self.need(st, 'C14', R, ok and good, '%s becomes %r' % (n, b))
        elif isinstance(a, I) and isinstance(b, I):
            self.need_eq(st, 'C14', R, b, a, '%s becomes %r' % (n, b))
        elif isinstance(a, B) and isinstance(b, B):
            x, y = [t.c if t.c in (True, False) else st.facts.decide(t.c) for t in (a, b)]
            self.need(st, 'C14', R, x is not None and x == y, '%s becomes %r' % (n, b))
        else:
            self.fail(st, 'C14', R, '%s becomes %r' % (n, b))

    # --- choices -------------------------------------------------------------------------
    def choice(self, st, v, term, ty):
        R = 'an optimised choice has the same alternatives in the same order'
        ai = self.t.fld(ty, 'args')
        self.args_term = ('f', term, 0, ai)
        self.sel_term = term
        self.ids = self.e.mk(('f', term, 0, self.t.fld(ty, 'debug_id')), self.fields(ty)[self.t.fld(ty, 'debug_id')][1])
        n = atom(('len', self.args_term))
        end = self.walk(st, R, v, ZERO)
        if end is None:
            return
        self.need_eq(st, 'C14', R, end, n, '%r of %r alternatives are left' % (end, n))

    def walk(self, st, R, v, pos):
        """The position after the alternatives a rule stands for, which have to go on from pos."""
        if isinstance(v, S):
            if self.fits_at(st, v, pos):
                return pos + 1
            self.fail(st, 'C14', R, '%r stands where alternative %r belongs' % (v, pos))
            return None
        kind, ty, x = self.open(st, v)
        if kind not in ('Select', 'FastSelect'):
            self.fail(st, 'C14', R, 'a %s stands where alternative %r belongs' % (kind, pos))
            return None
        g = lambda n: self.e.proj(st, x, (('f', self.t.fld(ty, n), self.fields(ty)[self.t.fld(ty, n)][1]),))
        self.need_eq(st, 'C14', 'an optimised choice keeps its debug id', g('debug_id'), self.ids, 'it has %r' % (g('debug_id'),))
        args = self.content(st, g('args'))
        if isinstance(args, S):
            if args.t == self.args_term and st.holds_eq(pos, 0) and kind == 'Select':
                return atom(('len', args.t))
            self.fail(st, 'C14', R, 'has %r as alternatives' % (args,))
            return None
        if not isinstance(args, VV):
            raise GiveUp('alternatives %r' % (args,))
        start, upto, tail = pos, None, None
        if kind == 'FastSelect':
            tab = g('table')
            if not self.need(st, 'C14', R, isinstance(tab, S) and tab.t == ('tab', self.sel_term) and st.holds_eq(pos, 0),
                             'uses the table %r for alternatives from %r' % (tab, pos)):
                return None
            upto = atom(('upto', self.sel_term))
            tl = g('tail')
            tail = tl.c if tl.c in (True, False) else st.facts.decide(tl.c)
            if tail is None:
                tail = st.truth(tl)
        at = ZERO
        for k, (tm, lo, hi) in enumerate(args.segs):
            if st.holds_eq(lo, hi):
                continue
            last_one = st.holds_eq(hi, args.n) and st.holds_eq(hi, lo + 1)
            if kind == 'FastSelect' and tail and last_one:
                self.need_eq(st, 'C14', R, pos - start, upto, 'the rest starts at alternative %r, the table stops at %r' % (pos, upto))
                pos = self.walk(st, R, tm, pos)
                if pos is None:
                    return None
                at = hi
                continue
            if isinstance(tm, A) and st.holds_eq(hi, lo + 1):
                pos = self.walk(st, R, tm, pos)
                if pos is None:
                    return None
            else:
                # element lo of the new list must be alternative pos
                if not self.need(st, 'C14', R, self.fits_from(st, tm, lo, hi, pos, self.args_term), '%r stands at %r..%r where alternatives from %r belong'
                                 % (tm, lo, hi, pos)):
                    return None
                pos = pos + (hi - lo)
            at = hi
        if kind == 'FastSelect' and not tail:
            self.need_eq(st, 'C14', R, pos - start, upto, 'the table covers %r of %r alternatives' % (upto, pos))
        return pos

    def fits_at(self, st, v, pos):
        if not isinstance(v, S):
            return False
        t = v.t[1] if v.t[0] == 'opt' else v.t
        return t[0] == 'e' and t[1] == self.args_term and st.holds_eq(t[2], pos)


def subst_lin(l, m):
    out = lin(l.c)
    for a, k in l.t:
        out = out + (m[a].scale(k) if a in m else atom(a).scale(k))
    return out


class SyntaxMonitor(OptMonitor):
    """Syntax::optimize: every rule optimised in place, names kept."""
    own = None

    def __init__(self, prog):
        OptMonitor.__init__(self, prog)
        self.where = 'Syntax::optimize'
        self.syn = prog.fns[prog.roots['r_syntax_optimize']]['locals'][1]

    def args(self):
        return [S(('arg', 'syntax'), self.syn)]

    def fld(self, n):
        i = self.t.fld(self.syn, n)
        return i, self.p.types[self.syn]['variants'][0]['fields'][i][1]

    def refs_here(self, st):
        return ('f', ('arg', 'syntax'), 0, self.fld('rules')[0])

    def returned(self, st, v):
        e = self.e
        R = 'every rule keeps its place and its name'
        if isinstance(v, S):
            v = e.expand(st, v)
        i, ty = self.fld('rules')
        rt = ('f', ('arg', 'syntax'), 0, i)
        rules = v.f[i]
        ok = False
        if isinstance(rules, VV):
            ok = st.holds_eq(rules.n, atom(('len', rt)))
            for tm, lo, hi in rules.segs:
                ok = ok and (st.holds_eq(lo, hi) or self.fits_from(st, tm, lo, hi, lo, rt))
        elif isinstance(rules, S):
            ok = rules.t == rt
        self.need(st, 'C14', R, ok, 'the rules are %r' % (rules,))
        j, _ = self.fld('names')
        nm = v.f[j]
        self.need(st, 'C14', R, isinstance(nm, S) and nm.t == ('f', ('arg', 'syntax'), 0, j), 'the names are %r' % (nm,))


def run_opt(prog, what, time_limit=100):
    kind, _, variant = what.partition(':')
    cls, root = {'byte': (ByteMonitor, 'r_unique_byte'), 'rule': (RuleMonitor, 'r_optimize_rule'),
                 'table': (TableMonitor, 'r_unique_table'), 'syntax': (SyntaxMonitor, 'r_syntax_optimize')}[kind]
    mon = cls(prog, variant) if variant else cls(prog)
    eng = Engine(prog, Natives(readtoken.install(prog)), hooks=[mon], monitor=mon, time_limit=time_limit)
    eng.track_panics = Engine.PANICS
    eng.track_ends = Engine.ENDS
    mon.e = eng
    eng.run([eng.start(prog.roots[root], mon.args(), mon.setup)])
    return eng, mon


def parts(prog):
    vs = ParseTypes(prog).variants
    return ['table', 'syntax'] + ['rule:' + v for v in vs] + ['byte:' + v for v in vs]


if __name__ == '__main__':
    import sys, time
    from mir import Program
    p = Program(sys.argv[1])
    for r in sys.argv[2:] or parts(p):
        t0 = time.time()
        eng, mon = run_opt(p, r)
        print('==', r, eng.blocks_run, eng.paths, len(eng.returned), eng.incomplete, eng.unknown, '%.1fs' % (time.time() - t0))
        for k, s in sorted(mon.book.d.items()):
            print('   ', k[1:], s['ok'], s['bad'], s['open'], (s['ex'] or (s['why'],))[0])
