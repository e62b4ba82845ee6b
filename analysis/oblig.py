"""Obligations: what must hold at a point, whether the state there entails it, and, if not,
whether the state is exact enough for the mismatch to count as a violation."""
from dom import *


class Book:
    def __init__(self):
        self.d = {}

    def slot(self, pid, rule, where):
        return self.d.setdefault((pid, rule, where), {'ok': 0, 'bad': 0, 'open': 0, 'ex': None, 'why': None})

    def record(self, pid, rule, where, ok, definite, detail, trail=()):
        s = self.slot(pid, rule, where)
        if ok:
            s['ok'] += 1
        elif definite:
            s['bad'] += 1
            if s['ex'] is None:
                s['ex'] = (detail, list(trail))
        else:
            s['open'] += 1
            if s['why'] is None:
                s['why'] = detail

    def of(self, pid):
        return {k: v for k, v in self.d.items() if k[0] == pid}

    def merge(self, other):
        for k, v in other.d.items():
            s = self.slot(*k)
            for f in ('ok', 'bad', 'open'):
                s[f] += v[f]
            for f in ('ex', 'why'):
                s[f] = s[f] or v[f]


def names_imprecise(x):
    out = set()
    walk_atoms(x, out)
    for a in out:
        if isinstance(a, tuple) and len(a) == 3 and a[0] == '?' and a[1] in ('phi', 'delta', 'unk', 'any'):
            return True
        if isinstance(a, tuple) and a and a[0] in ('op', 'cast', 'f2i', 'C'):
            return True
    return False


def wide_free(st, c):
    """Whether a condition says that a number of characters is some other number, and nothing is known that would keep
    the text from having wide characters."""
    if c[0] != 'eq':
        return False
    out = set()
    walk_atoms(c[1], out)
    n = [a for a in out if isinstance(a, tuple) and a and a[0] == 'C']
    if len(n) != 1 or names_imprecise(tuple(a for a in out if a != n[0] and isinstance(a, tuple) and a[:1] in (('?',), ('op',), ('cast',), ('f2i',)))):
        return False
    seen = set()
    for f in list(st.facts.ge) + list(st.facts.ne) + list(st.facts.pred):
        walk_atoms(f, seen)
    return not any(isinstance(a, tuple) and len(a) > 1 and a[0] in ('ch', 'lead', 'prefix', 'streq', 'inside', 'suffix') for a in seen)


def held_items(st, data):
    """Positions of the items of a list that something still points to."""
    out = set()

    def go(v):
        if isinstance(v, P):
            n = len(data.path)
            if v.cell == data.cell and len(v.path) > n and v.path[n][0] == 'i':
                out.add(lin(v.path[n][1]))
        elif isinstance(v, (A, IT)):
            for x in v.f:
                go(x)
    for v in st.store.values():
        go(v)
    return out


def forget_items(st, data, k, held=None):
    """Drops what is known about the items of a list before the k-th (or about all but the held ones)."""
    def passed(t):
        if isinstance(t, tuple):
            if len(t) == 3 and t[0] == 'e' and t[1] == data.cell[1] and isinstance(t[2], Lin):
                return t[2] not in held if held is not None else st.holds_ge(k - 1, t[2])
            return any(passed(x) for x in t)
        if isinstance(t, Lin):
            return any(passed(a) for a, _ in t.t)
        if isinstance(t, V):
            out = set()
            walk_atoms(t, out)
            return any(passed(a) for a in out if isinstance(a, tuple) and a and a[0] == 'e')
        return False
    f = st.facts
    f.var = {t: v for t, v in f.var.items() if not passed(t)}
    f.pred = {t: v for t, v in f.pred.items() if not passed(t)}


class Monitor:
    """Base for the property monitors."""
    ALL_PUSHES = False      # told about pushes to lists whose items are known, too

    keeps_text = False      # in the exact pass, whether what a text says is remembered where nothing points to any more

    def __init__(self, prog):
        self.p = prog
        self.book = Book()
        self.where = ''

    def vec_read(self, st, v, i):
        return None

    def vec_push(self, e, st, ptr, v, x):
        pass

    def vec_truncate(self, e, st, ptr, v, m):
        pass

    def written(self, st, cell, path):
        pass

    def inlined_return(self, st, tag, v):
        pass

    def returned(self, st, v):
        pass

    def at_head(self, st):
        pass

    def wellformed(self, st, cond):
        """Does the condition hold because of how the library puts its arguments together?"""
        return False

    def emit(self, e, st, target, pieces):
        pass

    def emit_failed(self, e, st, target):
        pass

    # --- obligations ---------------------------------------------------------------------
    def record(self, pid, rule, where, *a):
        for x in pid if isinstance(pid, tuple) else (pid,):
            self.book.record(x, rule, where, *a)

    def need(self, st, pid, rule, cond, detail=None):
        """cond must be entailed."""
        c = c_norm(cond) if cond not in (True, False) else cond
        ok = c if c in (True, False) else st.facts.decide(c)
        if ok is True:
            self.record(pid, rule, self.where, True, True, None)
            return True
        imp = st.weak is not None or (c not in (True, False) and names_imprecise(c[1]) and not wide_free(st, c))
        d = detail() if callable(detail) else (detail or '')
        txt = '%s%s' % (d, '' if c in (True, False) else ' [needs %s]' % show_cond(c))
        if st.weak is not None:
            txt += ' (after %s)' % (st.weak,)
        self.record(pid, rule, self.where, False, not imp, txt, st.trail_list())
        return False

    def need_eq(self, st, pid, rule, a, b, detail=None):
        a, b = (x.l if isinstance(x, I) else lin(x) for x in (a, b))
        return self.need(st, pid, rule, ('eq', a - b), detail)

    def fail(self, st, pid, rule, detail):
        return self.need(st, pid, rule, False, detail)

    def ok(self, pid, rule):
        self.record(pid, rule, self.where, True, True, None)


def show_cond(c):
    k = c[0]
    if k == 'ge':
        return '%r >= 0' % (c[1],)
    if k == 'eq':
        return '%r == 0' % (c[1],)
    if k == 'ne':
        return '%r != 0' % (c[1],)
    return ('' if k == 'p' else 'not ') + show(c[1])
