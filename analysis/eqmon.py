"""Structural equality and copies: what makes two values count as equal, and what a copy holds."""
from dom import *
from interp import Engine, GiveUp
from oblig import Monitor
from stdmodel import Natives, C, as_str
import readtoken


def strip(p, ty):
    while p.types[ty]['k'] in ('ref', 'ptr'):
        ty = p.types[ty]['to']
    return ty


class EqMonitor(Monitor):
    """One call of ==: true needs every part to have been found equal, false needs a part found unequal."""

    def __init__(self, prog, root):
        Monitor.__init__(self, prog)
        fn = prog.fns[prog.roots[root]]
        self.ty = strip(prog, fn['locals'][1])
        self.where = prog.adt_short(self.ty)
        self.first = True

    def args(self):
        return [P(('m', ('arg', 'a'), self.ty)), P(('m', ('arg', 'b'), self.ty))]

    def setup(self, st):
        st.mon['#n'] = 0

    def call(self, e, st, fr, f, fid, args, rty, span):
        n = f['name']
        if not (n.endswith('PartialEq>::eq') or n.endswith('PartialEq>::ne')) or 'piston_meta::' not in n:
            return None
        if st.mon['#n'] == 0:
            st.mon['#n'] = 1
            return None
        a, b = self.deref(e, st, args[0]), self.deref(e, st, args[1])
        if not (isinstance(a, S) and isinstance(b, S)):
            return None
        if strip(self.p, a.ty) == self.ty and a.t == ('arg', 'a'):
            return None
        c = ('p', ('same', a.t, b.t))
        return B(c if n.endswith('eq') else ('n', c[1]))

    def deref(self, e, st, x):
        k = 0
        while isinstance(x, P) and k < 5:
            x = e.read(st, x.cell, x.path)
            k += 1
        return x

    def returned(self, st, v):
        e = self.e
        res = st.truth(v)
        a = e.mk(('arg', 'a'), self.ty)
        b = e.mk(('arg', 'b'), self.ty)
        diff = []
        self.parts(st, a, b, '', diff)
        known_same = all(x[1] is True for x in diff)
        known_diff = [x for x in diff if x[1] is False]
        if res:
            for name, r in diff:
                self.need(st, 'C27', 'values that compare equal agree in every part', r is True,
                          'equal although %s %s' % (name, 'differs' if r is False else 'is not compared'))
        else:
            self.need(st, 'C27', 'values that compare unequal differ in some part', not known_same,
                      'unequal although no part is known to differ')
            if not known_diff and not known_same:
                self.need(st, 'C27', 'values that compare unequal differ in some part', False, 'unequal without a part that differs')

    def parts(self, st, a, b, name, out):
        """(part, True/False/None) for every part of a type, as known in the state."""
        e, p = self.e, self.p
        t = p.types[a.ty] if isinstance(a, (S, A)) else None
        if t is not None and t['k'] == 'adt' and not t['box']:
            s = self.same(st, a, b)
            if s is not None and (not isinstance(a, S) or a.t != ('arg', 'a')):
                out.append((name or 'it', s))
                return
            short = p.adt_short(a.ty)
            if short in ('Arc', 'String', 'Vec', 'Box', 'Rc'):
                out.append((name, s))
                return
            if len(t['variants']) > 1:
                va, vb = self.var(st, a), self.var(st, b)
                if va is None or vb is None:
                    out.append((name + ' (kind)', None))
                    return
                out.append((name + ' (kind)', va == vb))
                if va != vb:
                    return
                vi = va
            else:
                vi = 0
            for i, (fn, fty) in enumerate(t['variants'][vi]['fields']):
                fa = e.proj(st, a, (('v', vi), ('f', i, fty)))
                fb = e.proj(st, b, (('v', vi), ('f', i, fty)))
                self.parts(st, fa, fb, (name + '.' if name else '') + fn, out)
            return
        if isinstance(a, I):
            out.append((name, st.facts.decide(('eq', a.l - b.l))))
            return
        if isinstance(a, B):
            out.append((name, self.bool_same(st, a, b)))
            return
        out.append((name, self.same(st, a, b)))

    def bool_same(self, st, a, b):
        va, vb = [x.c if x.c in (True, False) else st.facts.decide(x.c) for x in (a, b)]
        if va in (True, False) and vb in (True, False):
            return va == vb
        for t in (('same', a.c, b.c), ('same', b.c, a.c)):
            d = st.facts.decide(('p', t))
            if d is not None:
                return d
        return None

    def var(self, st, v):
        if isinstance(v, A):
            return v.v
        return st.facts.var.get(v.t)

    def keys(self, v):
        if isinstance(v, S):
            return v.t
        if isinstance(v, P) and v.cell[0] == 'm' and not v.path:
            return v.cell[1]
        if isinstance(v, STR):
            return (v.t, v.lo, v.hi)
        if isinstance(v, FL):
            return v
        return None

    def same(self, st, a, b):
        ka, kb = self.keys(a), self.keys(b)
        if ka is None or kb is None:
            return None
        want = {self.base(ka), self.base(kb)}
        for d, val in st.facts.pred.items():
            if not isinstance(d, tuple) or len(d) < 3:
                continue
            if d[0] == 'fcmp':
                if d[1] == 'Eq' and {self.base(self.keys(d[2])), self.base(self.keys(d[3]))} == want:
                    return val
            elif d[0] in ('same', 'streq', 'valeq') and {self.base(d[1]), self.base(d[2])} == want:
                return val
        return None

    def base(self, t):
        """A part named through its pointers."""
        while isinstance(t, tuple) and t and t[0] == '*':
            t = t[1]
        if isinstance(t, tuple) and len(t) == 3 and isinstance(t[0], tuple) and isinstance(t[1], Lin):
            return self.base(t[0])
        return t


class CloneMonitor(Monitor):
    """A copy holds what the original holds, part by part."""

    def __init__(self, prog, root):
        Monitor.__init__(self, prog)
        fn = prog.fns[prog.roots[root]]
        self.ty = strip(prog, fn['locals'][1])
        self.where = prog.adt_short(self.ty)

    def args(self):
        return [P(('m', ('arg', 'a'), self.ty))]

    def setup(self, st):
        st.mon['#n'] = 0

    def call(self, e, st, fr, f, fid, args, rty, span):
        n = f['name']
        if not n.endswith('Clone>::clone') or 'piston_meta::' not in n:
            return None
        if st.mon['#n'] == 0:
            st.mon['#n'] = 1
            return None
        a = e.read(st, args[0].cell, args[0].path)
        if isinstance(a, P) or isinstance(a, S) and a.t != ('arg', 'a'):
            return a
        return None

    def returned(self, st, v):
        e = self.e
        out = []
        self.parts(st, v, e.mk(('arg', 'a'), self.ty), '', out)
        for name, r in out:
            self.need(st, 'C27', 'a copy holds what the original holds', r is not False and r is not None,
                      '%s is %s' % (name or 'it', 'different' if r is False else 'not taken from the original'))

    def parts(self, st, v, a, name, out, n=0):
        e, p = self.e, self.p
        if n > 12:
            return
        if v == a:
            out.append((name, True))
            return
        if isinstance(v, S) and isinstance(a, S) and v.t == a.t:
            out.append((name, True))
            return
        if isinstance(v, P) or isinstance(a, P):
            if isinstance(v, P) and isinstance(a, P):
                self.parts(st, e.read(st, v.cell, v.path), e.read(st, a.cell, a.path), name, out, n + 1)
            else:
                out.append((name, None))
            return
        if isinstance(v, I) and isinstance(a, I):
            out.append((name, st.facts.decide(('eq', v.l - a.l))))
            return
        if isinstance(v, B) and isinstance(a, B):
            x, y = [t.c if t.c in (True, False) else st.facts.decide(t.c) for t in (v, a)]
            out.append((name, x == y if x is not None and y is not None else v.c == a.c or None))
            return
        ty = getattr(a, 'ty', None)
        t = p.types[ty] if ty is not None else None
        if t is not None and t['k'] == 'adt' and not t['box'] and isinstance(v, (A, S)):
            vi = 0
            if len(t['variants']) > 1:
                va, vb = [x.v if isinstance(x, A) else st.facts.var.get(x.t) for x in (v, a)]
                if va is None or vb is None:
                    out.append((name + ' (kind)', None))
                    return
                if va != vb:
                    out.append((name + ' (kind)', False))
                    return
                vi = va
            for i, (fn, fty) in enumerate(t['variants'][vi]['fields']):
                path = (('v', vi), ('f', i, fty))
                self.parts(st, e.proj(st, v, path), e.proj(st, a, path), (name + '.' if name else '') + fn, out, n + 1)
            return
        if isinstance(v, STR) and isinstance(a, STR):
            out.append((name, (v.t, v.lo, v.hi) == (a.t, a.lo, a.hi) or None))
            return
        out.append((name, None))


def run_eq(prog, root):
    mon = (EqMonitor if root.startswith('q_') else CloneMonitor)(prog, root)
    eng = Engine(prog, Natives(readtoken.install(prog)), hooks=[mon], monitor=mon, time_limit=60)
    eng.track_panics = Engine.PANICS
    eng.track_ends = Engine.ENDS
    mon.e = eng
    eng.run([eng.start(prog.roots[root], mon.args(), mon.setup)])
    return eng, mon


if __name__ == '__main__':
    import sys
    from mir import Program
    p = Program(sys.argv[1])
    for r in sys.argv[2:] or sorted(x for x in p.roots if x[:2] in ('q_', 'k_')):
        eng, mon = run_eq(p, r)
        print('==', r, eng.blocks_run, eng.paths, len(eng.returned), eng.incomplete, eng.unknown)
        for k, s in sorted(mon.book.d.items()):
            print('   ', k[1:], s['ok'], s['bad'], s['open'], (s['ex'] or (s['why'],))[0])
